// generated from wat/threads.wat by wat/gen.sh
#pragma once
static const unsigned char wat_threads[] = {
0,97,115,109,1,0,0,0,1,137,1,24,96,0,1,127,96,1,111,2,111,127,96,2,
111,111,2,111,127,96,1,111,0,96,2,112,126,1,111,96,0,1,111,96,1,111,1,127,
96,2,111,111,0,96,1,126,0,96,0,0,96,2,126,126,0,96,2,127,127,1,111,96,
1,127,0,96,2,127,127,0,96,2,127,126,0,96,4,111,111,111,127,0,96,1,126,3,
126,111,126,96,0,3,126,127,126,96,1,127,4,126,111,127,126,96,2,111,127,4,126,111,
127,126,96,1,111,2,126,126,96,0,3,126,111,126,96,1,111,3,126,127,126,96,2,111,
111,2,126,126,2,138,3,20,5,108,105,98,117,118,10,117,118,95,118,101,114,115,105,111,
110,0,0,5,108,105,98,117,118,9,117,118,95,100,108,111,112,101,110,0,1,5,108,105,
98,117,118,8,117,118,95,100,108,115,121,109,0,2,5,108,105,98,117,118,10,117,118,95,
100,108,99,108,111,115,101,0,3,5,108,105,98,117,118,16,117,118,95,116,104,114,101,97,
100,95,99,114,101,97,116,101,0,4,5,108,105,98,117,118,13,117,118,95,109,117,116,101,
120,95,105,110,105,116,0,5,5,108,105,98,117,118,16,117,118,95,109,117,116,101,120,95,
100,101,115,116,114,111,121,0,3,5,108,105,98,117,118,13,117,118,95,109,117,116,101,120,
95,108,111,99,107,0,3,5,108,105,98,117,118,15,117,118,95,109,117,116,101,120,95,117,
110,108,111,99,107,0,3,5,108,105,98,117,118,16,117,118,95,109,117,116,101,120,95,116,
114,121,108,111,99,107,0,6,5,108,105,98,117,118,12,117,118,95,99,111,110,100,95,105,
110,105,116,0,5,5,108,105,98,117,118,15,117,118,95,99,111,110,100,95,100,101,115,116,
114,111,121,0,3,5,108,105,98,117,118,14,117,118,95,99,111,110,100,95,115,105,103,110,
97,108,0,3,5,108,105,98,117,118,12,117,118,95,99,111,110,100,95,119,97,105,116,0,
7,3,101,110,118,5,98,101,103,105,110,0,8,3,101,110,118,3,101,110,100,0,8,3,
101,110,118,6,115,99,114,105,112,116,0,8,3,101,110,118,5,121,105,101,108,100,0,9,
3,101,110,118,3,98,97,100,0,10,13,112,119,97,114,116,95,98,117,105,108,116,105,110,
14,114,101,102,95,102,114,111,109,95,105,110,100,101,120,0,11,3,24,23,8,9,12,12,
13,13,13,14,15,16,17,18,19,20,21,20,20,20,22,21,20,20,23,5,3,1,0,1,
6,21,4,111,1,208,111,11,111,1,208,111,11,111,1,208,111,11,127,1,65,3,11,7,
138,1,16,3,109,101,109,2,0,3,115,101,116,0,28,5,115,112,97,119,110,0,29,7,
118,101,114,115,105,111,110,0,30,6,100,108,111,112,101,110,0,31,5,100,108,115,121,109,
0,32,7,100,108,99,108,111,115,101,0,33,5,109,105,110,105,116,0,34,8,109,100,101,
115,116,114,111,121,0,35,4,108,111,99,107,0,36,6,117,110,108,111,99,107,0,37,7,
116,114,121,108,111,99,107,0,38,5,99,105,110,105,116,0,39,8,99,100,101,115,116,114,
111,121,0,40,6,115,105,103,110,97,108,0,41,4,119,97,105,116,0,42,9,5,1,3,
0,1,20,10,146,8,23,133,1,2,4,127,1,126,32,0,66,32,136,167,65,255,1,113,
33,1,32,0,167,33,2,32,0,66,40,136,167,65,255,1,113,33,3,32,0,16,14,32,
1,69,4,64,32,2,16,22,11,32,1,65,1,70,4,64,32,2,32,3,16,24,11,32,
1,65,2,70,4,64,32,2,32,3,16,25,11,32,1,65,3,70,4,64,32,2,16,23,
11,32,1,65,4,70,4,64,32,0,16,16,11,32,1,65,5,70,4,64,32,2,32,0,
16,27,11,32,1,65,6,70,4,64,32,2,32,3,16,26,11,32,0,16,15,11,23,1,
1,126,65,0,41,3,0,33,0,16,17,65,0,32,0,66,1,124,55,3,0,11,32,0,
2,64,3,64,32,0,69,13,1,35,0,16,7,16,21,35,0,16,8,32,0,65,1,107,
33,0,12,0,11,11,11,39,0,2,64,3,64,32,0,69,13,1,35,0,16,9,4,64,
16,17,12,1,11,16,21,35,0,16,8,32,0,65,1,107,33,0,12,0,11,11,11,108,
1,2,127,2,64,3,64,32,2,32,0,79,13,1,35,0,16,7,2,64,3,64,65,8,
40,2,0,35,3,73,13,1,35,1,35,0,16,13,12,0,11,11,65,8,40,2,0,33,
3,16,17,65,12,40,2,0,32,3,106,35,3,112,65,8,108,32,1,65,232,7,108,32,
2,106,173,55,3,64,65,8,32,3,65,1,106,54,2,0,35,2,16,12,35,0,16,8,
32,2,65,1,106,33,2,12,0,11,11,11,129,1,2,2,127,1,126,2,64,3,64,32,
0,69,13,1,35,0,16,7,2,64,3,64,65,8,40,2,0,13,1,35,2,35,0,16,
13,12,0,11,11,65,12,40,2,0,33,2,65,8,40,2,0,33,3,16,17,32,2,65,
8,108,41,3,64,33,4,65,12,32,2,65,1,106,35,3,112,54,2,0,65,8,32,3,
65,1,107,54,2,0,35,1,16,12,35,0,16,8,32,1,65,8,108,32,1,65,8,108,
41,3,128,32,32,4,124,55,3,128,32,32,0,65,1,107,33,0,12,0,11,11,11,92,
0,2,64,3,64,32,0,69,13,1,35,0,16,7,2,64,3,64,65,16,40,2,0,32,
1,70,13,1,32,1,4,64,35,2,35,0,16,13,5,35,1,35,0,16,13,11,12,0,
11,11,16,21,65,16,65,1,32,1,107,54,2,0,32,1,4,64,35,1,16,12,5,35,
2,16,12,11,35,0,16,8,32,0,65,1,107,33,0,12,0,11,11,11,70,1,2,126,
32,1,32,0,173,124,33,2,32,1,66,127,133,33,3,16,17,32,0,4,64,32,0,65,
1,107,32,1,16,27,11,32,2,32,1,32,0,173,124,82,4,64,32,1,32,2,16,18,
11,32,3,32,1,66,127,133,82,4,64,32,1,32,3,16,18,11,11,18,0,32,0,36,
0,32,1,36,1,32,2,36,2,32,3,36,3,11,28,0,66,136,239,153,171,197,232,140,
145,17,210,20,32,0,16,4,66,136,142,152,168,192,224,128,129,1,11,24,0,66,136,239,
153,171,197,232,140,145,17,16,0,66,136,142,152,168,192,224,128,129,1,11,30,0,66,136,
239,153,171,197,232,140,145,17,65,0,32,0,16,19,16,1,66,136,142,152,168,192,224,128,
129,1,11,32,0,66,136,239,153,171,197,232,140,145,17,32,0,65,0,32,1,16,19,16,
2,66,136,142,152,168,192,224,128,129,1,11,26,0,66,136,239,153,171,197,232,140,145,17,
32,0,16,3,66,136,142,152,168,192,224,128,129,1,11,24,0,66,136,239,153,171,197,232,
140,145,17,16,5,66,136,142,152,168,192,224,128,129,1,11,26,0,66,136,239,153,171,197,
232,140,145,17,32,0,16,6,66,136,142,152,168,192,224,128,129,1,11,26,0,66,136,239,
153,171,197,232,140,145,17,32,0,16,7,66,136,142,152,168,192,224,128,129,1,11,26,0,
66,136,239,153,171,197,232,140,145,17,32,0,16,8,66,136,142,152,168,192,224,128,129,1,
11,26,0,66,136,239,153,171,197,232,140,145,17,32,0,16,9,66,136,142,152,168,192,224,
128,129,1,11,24,0,66,136,239,153,171,197,232,140,145,17,16,10,66,136,142,152,168,192,
224,128,129,1,11,26,0,66,136,239,153,171,197,232,140,145,17,32,0,16,11,66,136,142,
152,168,192,224,128,129,1,11,26,0,66,136,239,153,171,197,232,140,145,17,32,0,16,12,
66,136,142,152,168,192,224,128,129,1,11,28,0,66,136,239,153,171,197,232,140,145,17,32,
0,32,1,16,13,66,136,142,152,168,192,224,128,129,1,11,
};
