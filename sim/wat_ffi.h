// generated from wat/ffi.wat by wat/gen.sh
#pragma once
static const unsigned char wat_ffi[] = {
0,97,115,109,1,0,0,0,1,192,1,25,96,0,1,127,96,5,111,127,127,111,111,1,
127,96,6,111,127,127,127,111,111,1,127,96,4,111,111,111,111,0,96,0,8,111,111,111,
111,111,111,111,111,96,1,111,2,111,127,96,1,111,0,96,0,2,111,111,96,5,111,111,
111,111,111,1,127,96,3,111,111,111,3,111,111,127,96,0,0,96,1,126,0,96,1,111,
1,126,96,2,127,127,1,111,96,1,126,1,111,96,0,3,126,127,126,96,5,111,127,127,
111,111,3,126,127,126,96,6,111,127,127,127,111,111,3,126,127,126,96,4,111,111,111,111,
2,126,126,96,0,10,126,111,111,111,111,111,111,111,111,126,96,1,111,4,126,111,127,126,
96,1,111,2,126,126,96,0,4,126,111,111,126,96,5,111,111,111,111,111,3,126,127,126,
96,3,111,111,111,5,126,111,111,127,126,2,244,3,21,6,108,105,98,102,102,105,14,102,
102,105,95,105,115,95,101,110,97,98,108,101,100,0,0,6,108,105,98,102,102,105,12,102,
102,105,95,112,114,101,112,95,99,105,102,0,1,6,108,105,98,102,102,105,16,102,102,105,
95,112,114,101,112,95,99,105,102,95,118,97,114,0,2,6,108,105,98,102,102,105,8,102,
102,105,95,99,97,108,108,0,3,6,108,105,98,102,102,105,15,102,102,105,95,100,101,102,
97,117,108,116,95,97,98,105,0,0,6,108,105,98,102,102,105,18,102,102,105,95,98,117,
105,108,116,95,105,110,95,116,121,112,101,115,0,4,6,108,105,98,102,102,105,12,102,102,
105,120,95,110,101,119,95,99,105,102,0,5,6,108,105,98,102,102,105,12,102,102,105,120,
95,100,101,108,95,99,105,102,0,6,6,108,105,98,102,102,105,9,102,102,105,120,95,99,
97,108,108,0,3,6,108,105,98,102,102,105,17,102,102,105,95,99,108,111,115,117,114,101,
95,97,108,108,111,99,0,7,6,108,105,98,102,102,105,16,102,102,105,95,99,108,111,115,
117,114,101,95,102,114,101,101,0,6,6,108,105,98,102,102,105,20,102,102,105,95,112,114,
101,112,95,99,108,111,115,117,114,101,95,108,111,99,0,8,6,108,105,98,102,102,105,19,
102,102,105,120,95,110,101,119,95,99,95,99,97,108,108,98,97,99,107,0,9,6,108,105,
98,102,102,105,19,102,102,105,120,95,100,101,108,95,99,95,99,97,108,108,98,97,99,107,
0,6,3,101,110,118,2,99,98,0,3,3,101,110,118,5,121,105,101,108,100,0,10,3,
101,110,118,3,98,97,100,0,11,13,112,119,97,114,116,95,98,117,105,108,116,105,110,13,
110,97,116,105,118,101,95,109,101,109,111,114,121,2,4,144,78,13,112,119,97,114,116,95,
98,117,105,108,116,105,110,12,105,54,52,95,102,114,111,109,95,114,101,102,0,12,13,112,
119,97,114,116,95,98,117,105,108,116,105,110,14,114,101,102,95,102,114,111,109,95,105,110,
100,101,120,0,13,13,112,119,97,114,116,95,98,117,105,108,116,105,110,12,114,101,102,95,
102,114,111,109,95,105,54,52,0,14,3,19,18,3,3,3,14,15,16,17,18,15,19,20,
21,18,22,21,23,24,21,5,4,1,1,1,1,7,153,2,18,3,109,101,109,2,1,6,
99,98,104,111,115,116,0,20,5,99,98,115,117,109,0,21,5,99,98,102,105,98,0,22,
14,102,102,105,95,105,115,95,101,110,97,98,108,101,100,0,24,12,102,102,105,95,112,114,
101,112,95,99,105,102,0,25,16,102,102,105,95,112,114,101,112,95,99,105,102,95,118,97,
114,0,26,8,102,102,105,95,99,97,108,108,0,27,15,102,102,105,95,100,101,102,97,117,
108,116,95,97,98,105,0,28,18,102,102,105,95,98,117,105,108,116,95,105,110,95,116,121,
112,101,115,0,29,12,102,102,105,120,95,110,101,119,95,99,105,102,0,30,12,102,102,105,
120,95,100,101,108,95,99,105,102,0,31,9,102,102,105,120,95,99,97,108,108,0,32,17,
102,102,105,95,99,108,111,115,117,114,101,95,97,108,108,111,99,0,33,16,102,102,105,95,
99,108,111,115,117,114,101,95,102,114,101,101,0,34,20,102,102,105,95,112,114,101,112,95,
99,108,111,115,117,114,101,95,108,111,99,0,35,19,102,102,105,120,95,110,101,119,95,99,
95,99,97,108,108,98,97,99,107,0,36,19,102,102,105,120,95,100,101,108,95,99,95,99,
97,108,108,98,97,99,107,0,37,10,203,5,18,54,1,2,126,32,3,16,17,33,4,32,
2,16,17,33,5,32,0,32,1,32,2,32,3,16,14,32,4,32,3,16,17,82,4,64,
32,4,16,16,11,32,5,32,2,16,17,82,4,64,32,5,16,16,11,11,72,1,3,126,
32,3,16,17,33,6,32,6,66,63,131,33,5,32,2,16,17,33,4,2,64,3,64,32,
5,80,13,1,32,6,32,4,40,2,0,173,124,33,6,16,15,32,4,66,8,124,33,4,
32,5,66,1,125,33,5,12,0,11,11,32,1,16,17,32,6,55,3,0,11,162,1,2,
1,126,3,127,32,2,16,17,33,4,32,4,40,2,8,33,5,32,4,40,2,16,33,6,
32,5,33,7,32,5,65,1,75,4,64,32,6,32,4,41,3,0,55,67,1,0,32,6,
32,5,65,1,107,173,55,67,1,8,32,6,32,6,65,192,0,106,173,55,67,1,16,32,
0,32,4,16,23,65,1,32,6,65,32,106,16,18,65,1,32,6,16,18,16,8,32,6,
40,66,1,32,33,7,16,15,32,6,32,5,65,2,107,173,55,67,1,8,32,0,32,4,
16,23,65,1,32,6,65,32,106,16,18,65,1,32,6,16,18,16,8,32,7,32,6,40,
66,1,32,106,33,7,11,32,1,16,17,32,7,54,2,0,11,9,0,32,0,41,3,0,
16,19,11,24,0,66,136,239,153,171,197,232,140,145,17,16,0,66,136,142,152,168,192,224,
128,129,1,11,34,0,66,136,239,153,171,197,232,140,145,17,32,0,32,1,32,2,32,3,
32,4,16,1,66,136,142,152,168,192,224,128,129,1,11,36,0,66,136,239,153,171,197,232,
140,145,17,32,0,32,1,32,2,32,3,32,4,32,5,16,2,66,136,142,152,168,192,224,
128,129,1,11,32,0,66,136,239,153,171,197,232,140,145,17,32,0,32,1,32,2,32,3,
16,3,66,136,142,152,168,192,224,128,129,1,11,24,0,66,136,239,153,171,197,232,140,145,
17,16,4,66,136,142,152,168,192,224,128,129,1,11,24,0,66,136,239,153,171,197,232,140,
145,17,16,5,66,136,142,152,168,192,224,128,129,1,11,26,0,66,136,239,153,171,197,232,
140,145,17,32,0,16,6,66,136,142,152,168,192,224,128,129,1,11,26,0,66,136,239,153,
171,197,232,140,145,17,32,0,16,7,66,136,142,152,168,192,224,128,129,1,11,32,0,66,
136,239,153,171,197,232,140,145,17,32,0,32,1,32,2,32,3,16,8,66,136,142,152,168,
192,224,128,129,1,11,24,0,66,136,239,153,171,197,232,140,145,17,16,9,66,136,142,152,
168,192,224,128,129,1,11,26,0,66,136,239,153,171,197,232,140,145,17,32,0,16,10,66,
136,142,152,168,192,224,128,129,1,11,34,0,66,136,239,153,171,197,232,140,145,17,32,0,
32,1,32,2,32,3,32,4,16,11,66,136,142,152,168,192,224,128,129,1,11,30,0,66,
136,239,153,171,197,232,140,145,17,32,0,32,1,32,2,16,12,66,136,142,152,168,192,224,
128,129,1,11,26,0,66,136,239,153,171,197,232,140,145,17,32,0,16,13,66,136,142,152,
168,192,224,128,129,1,11,
};
