// generated from wat/stdio.wat by wat/gen.sh
#pragma once
static const unsigned char wat_stdio[] = {
0,97,115,109,1,0,0,0,1,113,14,96,2,111,111,2,111,127,96,4,111,127,127,111,
2,127,127,96,4,111,127,127,111,1,127,96,1,111,1,127,96,0,3,111,111,111,96,2,
127,127,1,111,96,2,127,127,4,126,111,127,126,96,4,127,127,127,111,4,126,127,127,126,
96,4,127,127,127,111,3,126,127,126,96,1,111,3,126,127,126,96,0,5,126,111,111,111,
126,96,1,127,1,127,96,5,111,111,127,127,127,2,127,127,96,4,127,127,127,127,4,127,
127,127,127,2,189,1,8,13,112,119,97,114,116,95,98,117,105,108,116,105,110,5,102,111,
112,101,110,0,0,13,112,119,97,114,116,95,98,117,105,108,116,105,110,5,102,114,101,97,
100,0,1,13,112,119,97,114,116,95,98,117,105,108,116,105,110,6,102,119,114,105,116,101,
0,1,13,112,119,97,114,116,95,98,117,105,108,116,105,110,5,102,114,101,97,100,0,2,
13,112,119,97,114,116,95,98,117,105,108,116,105,110,6,102,119,114,105,116,101,0,2,13,
112,119,97,114,116,95,98,117,105,108,116,105,110,6,102,99,108,111,115,101,0,3,13,112,
119,97,114,116,95,98,117,105,108,116,105,110,5,115,116,100,105,111,0,4,13,112,119,97,
114,116,95,98,117,105,108,116,105,110,14,114,101,102,95,102,114,111,109,95,105,110,100,101,
120,0,5,3,11,10,6,7,7,8,8,9,10,11,12,13,5,4,1,1,1,20,6,6,
1,111,1,208,111,11,7,81,11,3,109,101,109,2,0,4,111,112,101,110,0,8,4,114,
101,97,100,0,9,5,119,114,105,116,101,0,10,5,114,101,97,100,49,0,11,6,119,114,
105,116,101,49,0,12,5,99,108,111,115,101,0,13,3,115,116,100,0,14,4,103,114,111,
119,0,15,4,99,111,112,121,0,16,4,115,97,118,101,0,17,10,135,3,10,36,0,66,
136,239,153,171,197,232,140,145,17,65,0,32,0,16,7,65,0,32,1,16,7,16,0,66,
136,142,152,168,192,224,128,129,1,11,36,0,66,136,239,153,171,197,232,140,145,17,65,0,
32,0,16,7,32,1,32,2,32,3,16,1,66,136,142,152,168,192,224,128,129,1,11,36,
0,66,136,239,153,171,197,232,140,145,17,65,0,32,0,16,7,32,1,32,2,32,3,16,
2,66,136,142,152,168,192,224,128,129,1,11,36,0,66,136,239,153,171,197,232,140,145,17,
65,0,32,0,16,7,32,1,32,2,32,3,16,3,66,136,142,152,168,192,224,128,129,1,
11,36,0,66,136,239,153,171,197,232,140,145,17,65,0,32,0,16,7,32,1,32,2,32,
3,16,4,66,136,142,152,168,192,224,128,129,1,11,26,0,66,136,239,153,171,197,232,140,
145,17,32,0,16,5,66,136,142,152,168,192,224,128,129,1,11,24,0,66,136,239,153,171,
197,232,140,145,17,16,6,66,136,142,152,168,192,224,128,129,1,11,6,0,32,0,64,0,
11,79,1,4,127,2,64,3,64,65,0,32,2,16,7,32,3,32,4,32,0,16,1,33,
8,33,5,32,5,69,13,1,32,8,13,1,65,0,32,2,16,7,32,3,32,5,32,1,
16,2,33,8,33,6,32,7,32,6,106,33,7,32,8,13,1,32,6,32,5,71,13,1,
12,0,11,11,32,7,32,8,11,65,1,4,127,65,0,32,0,16,7,65,0,32,1,16,
7,16,0,33,4,36,0,35,0,209,69,4,64,65,0,32,2,16,7,65,1,32,3,35,
0,16,2,33,5,33,7,35,0,16,5,33,6,208,111,36,0,11,32,7,32,4,32,5,
32,6,11,
};
