// generated from wat/wasi.wat by wat/gen.sh
#pragma once
static const unsigned char wat_wasi[] = {
0,97,115,109,1,0,0,0,1,173,2,34,96,2,127,127,1,127,96,3,127,126,127,1,
127,96,4,127,126,126,127,1,127,96,3,127,126,126,1,127,96,1,127,1,127,96,2,127,
126,1,127,96,5,127,127,127,126,127,1,127,96,3,127,127,127,1,127,96,4,127,127,127,
127,1,127,96,4,127,126,127,127,1,127,96,5,127,127,127,127,127,1,127,96,7,127,127,
127,127,126,126,127,1,127,96,7,127,127,127,127,127,127,127,1,127,96,9,127,127,127,127,
127,126,126,127,127,1,127,96,6,127,127,127,127,127,127,1,127,96,1,127,0,96,0,1,
127,96,2,127,127,3,126,127,126,96,3,127,126,127,3,126,127,126,96,4,127,126,126,127,
3,126,127,126,96,3,127,126,126,3,126,127,126,96,1,127,3,126,127,126,96,2,127,126,
3,126,127,126,96,5,127,127,127,126,127,3,126,127,126,96,3,127,127,127,3,126,127,126,
96,4,127,127,127,127,3,126,127,126,96,4,127,126,127,127,3,126,127,126,96,5,127,127,
127,127,127,3,126,127,126,96,7,127,127,127,127,126,126,127,3,126,127,126,96,7,127,127,
127,127,127,127,127,3,126,127,126,96,9,127,127,127,127,127,126,126,127,127,3,126,127,126,
96,6,127,127,127,127,127,127,3,126,127,126,96,1,127,2,126,126,96,0,3,126,127,126,
2,237,13,46,22,119,97,115,105,95,115,110,97,112,115,104,111,116,95,112,114,101,118,105,
101,119,49,8,97,114,103,115,95,103,101,116,0,0,22,119,97,115,105,95,115,110,97,112,
115,104,111,116,95,112,114,101,118,105,101,119,49,14,97,114,103,115,95,115,105,122,101,115,
95,103,101,116,0,0,22,119,97,115,105,95,115,110,97,112,115,104,111,116,95,112,114,101,
118,105,101,119,49,13,99,108,111,99,107,95,114,101,115,95,103,101,116,0,0,22,119,97,
115,105,95,115,110,97,112,115,104,111,116,95,112,114,101,118,105,101,119,49,14,99,108,111,
99,107,95,116,105,109,101,95,103,101,116,0,1,22,119,97,115,105,95,115,110,97,112,115,
104,111,116,95,112,114,101,118,105,101,119,49,11,101,110,118,105,114,111,110,95,103,101,116,
0,0,22,119,97,115,105,95,115,110,97,112,115,104,111,116,95,112,114,101,118,105,101,119,
49,17,101,110,118,105,114,111,110,95,115,105,122,101,115,95,103,101,116,0,0,22,119,97,
115,105,95,115,110,97,112,115,104,111,116,95,112,114,101,118,105,101,119,49,9,102,100,95,
97,100,118,105,115,101,0,2,22,119,97,115,105,95,115,110,97,112,115,104,111,116,95,112,
114,101,118,105,101,119,49,11,102,100,95,97,108,108,111,99,97,116,101,0,3,22,119,97,
115,105,95,115,110,97,112,115,104,111,116,95,112,114,101,118,105,101,119,49,8,102,100,95,
99,108,111,115,101,0,4,22,119,97,115,105,95,115,110,97,112,115,104,111,116,95,112,114,
101,118,105,101,119,49,11,102,100,95,100,97,116,97,115,121,110,99,0,4,22,119,97,115,
105,95,115,110,97,112,115,104,111,116,95,112,114,101,118,105,101,119,49,13,102,100,95,102,
100,115,116,97,116,95,103,101,116,0,0,22,119,97,115,105,95,115,110,97,112,115,104,111,
116,95,112,114,101,118,105,101,119,49,19,102,100,95,102,100,115,116,97,116,95,115,101,116,
95,102,108,97,103,115,0,0,22,119,97,115,105,95,115,110,97,112,115,104,111,116,95,112,
114,101,118,105,101,119,49,20,102,100,95,102,100,115,116,97,116,95,115,101,116,95,114,105,
103,104,116,115,0,3,22,119,97,115,105,95,115,110,97,112,115,104,111,116,95,112,114,101,
118,105,101,119,49,15,102,100,95,102,105,108,101,115,116,97,116,95,103,101,116,0,0,22,
119,97,115,105,95,115,110,97,112,115,104,111,116,95,112,114,101,118,105,101,119,49,20,102,
100,95,102,105,108,101,115,116,97,116,95,115,101,116,95,115,105,122,101,0,5,22,119,97,
115,105,95,115,110,97,112,115,104,111,116,95,112,114,101,118,105,101,119,49,21,102,100,95,
102,105,108,101,115,116,97,116,95,115,101,116,95,116,105,109,101,115,0,2,22,119,97,115,
105,95,115,110,97,112,115,104,111,116,95,112,114,101,118,105,101,119,49,8,102,100,95,112,
114,101,97,100,0,6,22,119,97,115,105,95,115,110,97,112,115,104,111,116,95,112,114,101,
118,105,101,119,49,14,102,100,95,112,114,101,115,116,97,116,95,103,101,116,0,0,22,119,
97,115,105,95,115,110,97,112,115,104,111,116,95,112,114,101,118,105,101,119,49,19,102,100,
95,112,114,101,115,116,97,116,95,100,105,114,95,110,97,109,101,0,7,22,119,97,115,105,
95,115,110,97,112,115,104,111,116,95,112,114,101,118,105,101,119,49,9,102,100,95,112,119,
114,105,116,101,0,6,22,119,97,115,105,95,115,110,97,112,115,104,111,116,95,112,114,101,
118,105,101,119,49,7,102,100,95,114,101,97,100,0,8,22,119,97,115,105,95,115,110,97,
112,115,104,111,116,95,112,114,101,118,105,101,119,49,10,102,100,95,114,101,97,100,100,105,
114,0,6,22,119,97,115,105,95,115,110,97,112,115,104,111,116,95,112,114,101,118,105,101,
119,49,11,102,100,95,114,101,110,117,109,98,101,114,0,0,22,119,97,115,105,95,115,110,
97,112,115,104,111,116,95,112,114,101,118,105,101,119,49,7,102,100,95,115,101,101,107,0,
9,22,119,97,115,105,95,115,110,97,112,115,104,111,116,95,112,114,101,118,105,101,119,49,
7,102,100,95,115,121,110,99,0,4,22,119,97,115,105,95,115,110,97,112,115,104,111,116,
95,112,114,101,118,105,101,119,49,7,102,100,95,116,101,108,108,0,0,22,119,97,115,105,
95,115,110,97,112,115,104,111,116,95,112,114,101,118,105,101,119,49,8,102,100,95,119,114,
105,116,101,0,8,22,119,97,115,105,95,115,110,97,112,115,104,111,116,95,112,114,101,118,
105,101,119,49,21,112,97,116,104,95,99,114,101,97,116,101,95,100,105,114,101,99,116,111,
114,121,0,7,22,119,97,115,105,95,115,110,97,112,115,104,111,116,95,112,114,101,118,105,
101,119,49,17,112,97,116,104,95,102,105,108,101,115,116,97,116,95,103,101,116,0,10,22,
119,97,115,105,95,115,110,97,112,115,104,111,116,95,112,114,101,118,105,101,119,49,23,112,
97,116,104,95,102,105,108,101,115,116,97,116,95,115,101,116,95,116,105,109,101,115,0,11,
22,119,97,115,105,95,115,110,97,112,115,104,111,116,95,112,114,101,118,105,101,119,49,9,
112,97,116,104,95,108,105,110,107,0,12,22,119,97,115,105,95,115,110,97,112,115,104,111,
116,95,112,114,101,118,105,101,119,49,9,112,97,116,104,95,111,112,101,110,0,13,22,119,
97,115,105,95,115,110,97,112,115,104,111,116,95,112,114,101,118,105,101,119,49,13,112,97,
116,104,95,114,101,97,100,108,105,110,107,0,14,22,119,97,115,105,95,115,110,97,112,115,
104,111,116,95,112,114,101,118,105,101,119,49,21,112,97,116,104,95,114,101,109,111,118,101,
95,100,105,114,101,99,116,111,114,121,0,7,22,119,97,115,105,95,115,110,97,112,115,104,
111,116,95,112,114,101,118,105,101,119,49,11,112,97,116,104,95,114,101,110,97,109,101,0,
14,22,119,97,115,105,95,115,110,97,112,115,104,111,116,95,112,114,101,118,105,101,119,49,
12,112,97,116,104,95,115,121,109,108,105,110,107,0,10,22,119,97,115,105,95,115,110,97,
112,115,104,111,116,95,112,114,101,118,105,101,119,49,16,112,97,116,104,95,117,110,108,105,
110,107,95,102,105,108,101,0,7,22,119,97,115,105,95,115,110,97,112,115,104,111,116,95,
112,114,101,118,105,101,119,49,11,112,111,108,108,95,111,110,101,111,102,102,0,8,22,119,
97,115,105,95,115,110,97,112,115,104,111,116,95,112,114,101,118,105,101,119,49,9,112,114,
111,99,95,101,120,105,116,0,15,22,119,97,115,105,95,115,110,97,112,115,104,111,116,95,
112,114,101,118,105,101,119,49,10,112,114,111,99,95,114,97,105,115,101,0,4,22,119,97,
115,105,95,115,110,97,112,115,104,111,116,95,112,114,101,118,105,101,119,49,10,114,97,110,
100,111,109,95,103,101,116,0,0,22,119,97,115,105,95,115,110,97,112,115,104,111,116,95,
112,114,101,118,105,101,119,49,11,115,99,104,101,100,95,121,105,101,108,100,0,16,22,119,
97,115,105,95,115,110,97,112,115,104,111,116,95,112,114,101,118,105,101,119,49,11,115,111,
99,107,95,97,99,99,101,112,116,0,7,22,119,97,115,105,95,115,110,97,112,115,104,111,
116,95,112,114,101,118,105,101,119,49,9,115,111,99,107,95,114,101,99,118,0,14,22,119,
97,115,105,95,115,110,97,112,115,104,111,116,95,112,114,101,118,105,101,119,49,9,115,111,
99,107,95,115,101,110,100,0,10,22,119,97,115,105,95,115,110,97,112,115,104,111,116,95,
112,114,101,118,105,101,119,49,13,115,111,99,107,95,115,104,117,116,100,111,119,110,0,0,
3,48,47,4,17,17,17,18,17,17,19,20,21,21,17,17,20,17,22,19,23,17,24,23,
25,23,17,26,21,17,25,24,27,28,29,30,31,24,31,27,24,25,32,21,17,33,24,31,
27,17,5,4,1,1,1,40,7,216,5,48,3,109,101,109,2,0,4,103,114,111,119,0,
46,8,97,114,103,115,95,103,101,116,0,47,14,97,114,103,115,95,115,105,122,101,115,95,
103,101,116,0,48,13,99,108,111,99,107,95,114,101,115,95,103,101,116,0,49,14,99,108,
111,99,107,95,116,105,109,101,95,103,101,116,0,50,11,101,110,118,105,114,111,110,95,103,
101,116,0,51,17,101,110,118,105,114,111,110,95,115,105,122,101,115,95,103,101,116,0,52,
9,102,100,95,97,100,118,105,115,101,0,53,11,102,100,95,97,108,108,111,99,97,116,101,
0,54,8,102,100,95,99,108,111,115,101,0,55,11,102,100,95,100,97,116,97,115,121,110,
99,0,56,13,102,100,95,102,100,115,116,97,116,95,103,101,116,0,57,19,102,100,95,102,
100,115,116,97,116,95,115,101,116,95,102,108,97,103,115,0,58,20,102,100,95,102,100,115,
116,97,116,95,115,101,116,95,114,105,103,104,116,115,0,59,15,102,100,95,102,105,108,101,
115,116,97,116,95,103,101,116,0,60,20,102,100,95,102,105,108,101,115,116,97,116,95,115,
101,116,95,115,105,122,101,0,61,21,102,100,95,102,105,108,101,115,116,97,116,95,115,101,
116,95,116,105,109,101,115,0,62,8,102,100,95,112,114,101,97,100,0,63,14,102,100,95,
112,114,101,115,116,97,116,95,103,101,116,0,64,19,102,100,95,112,114,101,115,116,97,116,
95,100,105,114,95,110,97,109,101,0,65,9,102,100,95,112,119,114,105,116,101,0,66,7,
102,100,95,114,101,97,100,0,67,10,102,100,95,114,101,97,100,100,105,114,0,68,11,102,
100,95,114,101,110,117,109,98,101,114,0,69,7,102,100,95,115,101,101,107,0,70,7,102,
100,95,115,121,110,99,0,71,7,102,100,95,116,101,108,108,0,72,8,102,100,95,119,114,
105,116,101,0,73,21,112,97,116,104,95,99,114,101,97,116,101,95,100,105,114,101,99,116,
111,114,121,0,74,17,112,97,116,104,95,102,105,108,101,115,116,97,116,95,103,101,116,0,
75,23,112,97,116,104,95,102,105,108,101,115,116,97,116,95,115,101,116,95,116,105,109,101,
115,0,76,9,112,97,116,104,95,108,105,110,107,0,77,9,112,97,116,104,95,111,112,101,
110,0,78,13,112,97,116,104,95,114,101,97,100,108,105,110,107,0,79,21,112,97,116,104,
95,114,101,109,111,118,101,95,100,105,114,101,99,116,111,114,121,0,80,11,112,97,116,104,
95,114,101,110,97,109,101,0,81,12,112,97,116,104,95,115,121,109,108,105,110,107,0,82,
16,112,97,116,104,95,117,110,108,105,110,107,95,102,105,108,101,0,83,11,112,111,108,108,
95,111,110,101,111,102,102,0,84,9,112,114,111,99,95,101,120,105,116,0,85,10,112,114,
111,99,95,114,97,105,115,101,0,86,10,114,97,110,100,111,109,95,103,101,116,0,87,11,
115,99,104,101,100,95,121,105,101,108,100,0,88,11,115,111,99,107,95,97,99,99,101,112,
116,0,89,9,115,111,99,107,95,114,101,99,118,0,90,9,115,111,99,107,95,115,101,110,
100,0,91,13,115,111,99,107,95,115,104,117,116,100,111,119,110,0,92,10,182,11,47,6,
0,32,0,64,0,11,28,0,66,136,239,153,171,197,232,140,145,17,32,0,32,1,16,0,
66,136,142,152,168,192,224,128,129,1,11,28,0,66,136,239,153,171,197,232,140,145,17,32,
0,32,1,16,1,66,136,142,152,168,192,224,128,129,1,11,28,0,66,136,239,153,171,197,
232,140,145,17,32,0,32,1,16,2,66,136,142,152,168,192,224,128,129,1,11,30,0,66,
136,239,153,171,197,232,140,145,17,32,0,32,1,32,2,16,3,66,136,142,152,168,192,224,
128,129,1,11,28,0,66,136,239,153,171,197,232,140,145,17,32,0,32,1,16,4,66,136,
142,152,168,192,224,128,129,1,11,28,0,66,136,239,153,171,197,232,140,145,17,32,0,32,
1,16,5,66,136,142,152,168,192,224,128,129,1,11,32,0,66,136,239,153,171,197,232,140,
145,17,32,0,32,1,32,2,32,3,16,6,66,136,142,152,168,192,224,128,129,1,11,30,
0,66,136,239,153,171,197,232,140,145,17,32,0,32,1,32,2,16,7,66,136,142,152,168,
192,224,128,129,1,11,26,0,66,136,239,153,171,197,232,140,145,17,32,0,16,8,66,136,
142,152,168,192,224,128,129,1,11,26,0,66,136,239,153,171,197,232,140,145,17,32,0,16,
9,66,136,142,152,168,192,224,128,129,1,11,28,0,66,136,239,153,171,197,232,140,145,17,
32,0,32,1,16,10,66,136,142,152,168,192,224,128,129,1,11,28,0,66,136,239,153,171,
197,232,140,145,17,32,0,32,1,16,11,66,136,142,152,168,192,224,128,129,1,11,30,0,
66,136,239,153,171,197,232,140,145,17,32,0,32,1,32,2,16,12,66,136,142,152,168,192,
224,128,129,1,11,28,0,66,136,239,153,171,197,232,140,145,17,32,0,32,1,16,13,66,
136,142,152,168,192,224,128,129,1,11,28,0,66,136,239,153,171,197,232,140,145,17,32,0,
32,1,16,14,66,136,142,152,168,192,224,128,129,1,11,32,0,66,136,239,153,171,197,232,
140,145,17,32,0,32,1,32,2,32,3,16,15,66,136,142,152,168,192,224,128,129,1,11,
34,0,66,136,239,153,171,197,232,140,145,17,32,0,32,1,32,2,32,3,32,4,16,16,
66,136,142,152,168,192,224,128,129,1,11,28,0,66,136,239,153,171,197,232,140,145,17,32,
0,32,1,16,17,66,136,142,152,168,192,224,128,129,1,11,30,0,66,136,239,153,171,197,
232,140,145,17,32,0,32,1,32,2,16,18,66,136,142,152,168,192,224,128,129,1,11,34,
0,66,136,239,153,171,197,232,140,145,17,32,0,32,1,32,2,32,3,32,4,16,19,66,
136,142,152,168,192,224,128,129,1,11,32,0,66,136,239,153,171,197,232,140,145,17,32,0,
32,1,32,2,32,3,16,20,66,136,142,152,168,192,224,128,129,1,11,34,0,66,136,239,
153,171,197,232,140,145,17,32,0,32,1,32,2,32,3,32,4,16,21,66,136,142,152,168,
192,224,128,129,1,11,28,0,66,136,239,153,171,197,232,140,145,17,32,0,32,1,16,22,
66,136,142,152,168,192,224,128,129,1,11,32,0,66,136,239,153,171,197,232,140,145,17,32,
0,32,1,32,2,32,3,16,23,66,136,142,152,168,192,224,128,129,1,11,26,0,66,136,
239,153,171,197,232,140,145,17,32,0,16,24,66,136,142,152,168,192,224,128,129,1,11,28,
0,66,136,239,153,171,197,232,140,145,17,32,0,32,1,16,25,66,136,142,152,168,192,224,
128,129,1,11,32,0,66,136,239,153,171,197,232,140,145,17,32,0,32,1,32,2,32,3,
16,26,66,136,142,152,168,192,224,128,129,1,11,30,0,66,136,239,153,171,197,232,140,145,
17,32,0,32,1,32,2,16,27,66,136,142,152,168,192,224,128,129,1,11,34,0,66,136,
239,153,171,197,232,140,145,17,32,0,32,1,32,2,32,3,32,4,16,28,66,136,142,152,
168,192,224,128,129,1,11,38,0,66,136,239,153,171,197,232,140,145,17,32,0,32,1,32,
2,32,3,32,4,32,5,32,6,16,29,66,136,142,152,168,192,224,128,129,1,11,38,0,
66,136,239,153,171,197,232,140,145,17,32,0,32,1,32,2,32,3,32,4,32,5,32,6,
16,30,66,136,142,152,168,192,224,128,129,1,11,42,0,66,136,239,153,171,197,232,140,145,
17,32,0,32,1,32,2,32,3,32,4,32,5,32,6,32,7,32,8,16,31,66,136,142,
152,168,192,224,128,129,1,11,36,0,66,136,239,153,171,197,232,140,145,17,32,0,32,1,
32,2,32,3,32,4,32,5,16,32,66,136,142,152,168,192,224,128,129,1,11,30,0,66,
136,239,153,171,197,232,140,145,17,32,0,32,1,32,2,16,33,66,136,142,152,168,192,224,
128,129,1,11,36,0,66,136,239,153,171,197,232,140,145,17,32,0,32,1,32,2,32,3,
32,4,32,5,16,34,66,136,142,152,168,192,224,128,129,1,11,34,0,66,136,239,153,171,
197,232,140,145,17,32,0,32,1,32,2,32,3,32,4,16,35,66,136,142,152,168,192,224,
128,129,1,11,30,0,66,136,239,153,171,197,232,140,145,17,32,0,32,1,32,2,16,36,
66,136,142,152,168,192,224,128,129,1,11,32,0,66,136,239,153,171,197,232,140,145,17,32,
0,32,1,32,2,32,3,16,37,66,136,142,152,168,192,224,128,129,1,11,26,0,66,136,
239,153,171,197,232,140,145,17,32,0,16,38,66,136,142,152,168,192,224,128,129,1,11,26,
0,66,136,239,153,171,197,232,140,145,17,32,0,16,39,66,136,142,152,168,192,224,128,129,
1,11,28,0,66,136,239,153,171,197,232,140,145,17,32,0,32,1,16,40,66,136,142,152,
168,192,224,128,129,1,11,24,0,66,136,239,153,171,197,232,140,145,17,16,41,66,136,142,
152,168,192,224,128,129,1,11,30,0,66,136,239,153,171,197,232,140,145,17,32,0,32,1,
32,2,16,42,66,136,142,152,168,192,224,128,129,1,11,36,0,66,136,239,153,171,197,232,
140,145,17,32,0,32,1,32,2,32,3,32,4,32,5,16,43,66,136,142,152,168,192,224,
128,129,1,11,34,0,66,136,239,153,171,197,232,140,145,17,32,0,32,1,32,2,32,3,
32,4,16,44,66,136,142,152,168,192,224,128,129,1,11,28,0,66,136,239,153,171,197,232,
140,145,17,32,0,32,1,16,45,66,136,142,152,168,192,224,128,129,1,11,
};
