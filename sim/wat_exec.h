// generated from wat/exec.wat by wat/gen.sh
#pragma once
static const unsigned char wat_exec[] = {
0,97,115,109,1,0,0,0,1,28,5,96,4,111,127,127,111,1,127,96,0,3,111,111,
111,96,2,127,127,1,111,96,1,127,0,96,0,0,2,77,3,13,112,119,97,114,116,95,
98,117,105,108,116,105,110,6,102,119,114,105,116,101,0,0,13,112,119,97,114,116,95,98,
117,105,108,116,105,110,5,115,116,100,105,111,0,1,13,112,119,97,114,116,95,98,117,105,
108,116,105,110,14,114,101,102,95,102,114,111,109,95,105,110,100,101,120,0,2,3,4,3,
3,4,4,5,3,1,0,2,6,16,3,127,1,65,0,11,111,1,208,111,11,111,1,208,
111,11,7,19,2,6,109,101,109,111,114,121,2,0,6,95,115,116,97,114,116,0,5,8,
1,4,10,59,3,24,0,16,1,36,1,36,2,26,65,0,32,0,16,2,65,1,65,1,
35,2,16,0,26,11,13,0,65,16,35,0,106,16,3,65,1,36,0,11,18,0,65,19,
35,0,107,16,3,65,128,128,4,65,7,54,2,0,11,11,10,1,0,65,16,11,4,83,
115,82,114,
};
