// The same driver over a copy of the directory index whose order is 5 instead of 13 (see tools/build.py), so that small
// histories reach every split, merge, rotation and change of height.
#define VBT_SMALL
#include "small/btree_dir.cpp"
#include "vbt.cpp"
