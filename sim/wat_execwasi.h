// generated from wat/execwasi.wat by wat/gen.sh
#pragma once
static const unsigned char wat_execwasi[] = {
0,97,115,109,1,0,0,0,1,42,7,96,4,111,127,127,111,1,127,96,0,3,111,111,
111,96,2,127,127,1,111,96,2,127,127,1,127,96,4,127,127,127,127,1,127,96,1,127,
0,96,0,0,2,220,1,7,13,112,119,97,114,116,95,98,117,105,108,116,105,110,6,102,
119,114,105,116,101,0,0,13,112,119,97,114,116,95,98,117,105,108,116,105,110,5,115,116,
100,105,111,0,1,13,112,119,97,114,116,95,98,117,105,108,116,105,110,14,114,101,102,95,
102,114,111,109,95,105,110,100,101,120,0,2,22,119,97,115,105,95,115,110,97,112,115,104,
111,116,95,112,114,101,118,105,101,119,49,14,97,114,103,115,95,115,105,122,101,115,95,103,
101,116,0,3,22,119,97,115,105,95,115,110,97,112,115,104,111,116,95,112,114,101,118,105,
101,119,49,8,97,114,103,115,95,103,101,116,0,3,22,119,97,115,105,95,115,110,97,112,
115,104,111,116,95,112,114,101,118,105,101,119,49,8,102,100,95,119,114,105,116,101,0,4,
22,119,97,115,105,95,115,110,97,112,115,104,111,116,95,112,114,101,118,105,101,119,49,9,
112,114,111,99,95,101,120,105,116,0,5,3,4,3,5,6,6,5,3,1,0,2,6,16,
3,127,1,65,0,11,111,1,208,111,11,111,1,208,111,11,7,19,2,6,109,101,109,111,
114,121,2,0,6,95,115,116,97,114,116,0,9,8,1,8,10,183,1,3,24,0,16,1,
36,1,36,2,26,65,0,32,0,16,2,65,1,65,1,35,2,16,0,26,11,22,0,65,
200,1,65,204,1,16,3,26,65,16,35,0,106,16,7,65,1,36,0,11,132,1,0,65,
19,35,0,107,16,7,65,192,0,65,196,0,16,3,26,65,128,8,65,128,32,16,4,26,
65,208,0,65,128,8,54,2,0,65,212,0,65,192,0,40,2,0,65,2,116,54,2,0,
65,216,0,65,128,32,54,2,0,65,220,0,65,196,0,40,2,0,54,2,0,65,1,65,
208,0,65,2,65,224,0,16,5,26,65,196,0,40,2,0,65,204,1,40,2,0,71,4,
64,35,0,4,64,65,17,16,7,11,11,65,32,40,2,0,65,0,78,4,64,65,32,40,
2,0,16,6,11,65,16,16,7,11,11,19,2,0,65,16,11,4,83,115,82,114,0,65,
32,11,4,69,88,73,84,
};
