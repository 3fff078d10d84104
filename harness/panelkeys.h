#include <vector>
// Where a touch presses which key.
struct Rect { int x, y, w, h, key; };
static std::vector<Rect> layout(){ std::vector<Rect> r; auto row = [&](int y, int x, int first, int n){ for (int i = 0; i < n; ++i) r.push_back({x + 16 * i, y, 16, 24, first + i}); };
	r.push_back({0, 48, 24, 24, 1}); row(48, 24, 2, 13); r.push_back({232, 48, 24, 24, 15}); row(72, 0, 16, 16); r.push_back({0, 96, 24, 24, 32}); row(96, 24, 33, 14); r.push_back({0, 120, 32, 24, 47}); row(120, 32, 48, 12); r.push_back({224, 120, 32, 24, 60});
	r.push_back({0, 144, 16, 16, 61}); for (int i = 0; i < 3; ++i) r.push_back({24 + 16 * i, 144, 16, 16, 62 + i}); r.push_back({80, 144, 112, 16, 65}); r.push_back({200, 144, 16, 16, 66}); r.push_back({216, 144, 16, 16, 67}); r.push_back({240, 144, 16, 16, 68});
	for (int i = 0; i < 5; ++i) r.push_back({48 * i, 0, 48, 16, 101 + i}); r.push_back({240, 0, 16, 16, 106});
	r.push_back({0, 168, 32, 24, 70}); r.push_back({40, 168, 48, 24, 71}); r.push_back({88, 168, 48, 24, 72}); r.push_back({144, 168, 16, 12, 80}); r.push_back({144, 180, 16, 12, 81}); for (int i = 0; i < 4; ++i) r.push_back({160 + 24 * i, 168, 24, 24, 90 + i}); return r; }
static const std::vector<Rect> RS = layout();
// Where each part of the panel's keys is drawn: x, y, width, height, first character of SPD (-1: as set), key.
static const short PANEL_KEY[95][6] = {
{0,48,32,32,280,1},{24,48,16,32,384,2},{40,48,16,32,386,3},{56,48,16,32,388,4},{72,48,16,32,390,5},{88,48,16,32,392,6},{104,48,16,32,394,7},{120,48,16,32,396,8},
{136,48,16,32,398,9},{152,48,16,32,400,10},{168,48,16,32,402,11},{184,48,16,32,404,12},{200,48,16,32,406,13},{216,48,16,32,408,14},{232,48,32,32,276,15},{0,72,16,32,410,16},
{16,72,16,32,412,17},{32,72,16,32,414,18},{48,72,16,32,416,19},{64,72,16,32,418,20},{80,72,16,32,420,21},{96,72,16,32,422,22},{112,72,16,32,424,23},{128,72,16,32,426,24},
{144,72,16,32,428,25},{160,72,16,32,430,26},{176,72,16,32,432,27},{192,72,16,32,434,28},{208,72,16,32,436,29},{224,72,16,32,438,30},{240,72,16,32,440,31},{0,96,32,32,284,32},
{24,96,16,32,442,33},{40,96,16,32,444,34},{56,96,16,32,446,35},{72,96,16,32,448,36},{88,96,16,32,450,37},{104,96,16,32,452,38},{120,96,16,32,454,39},{136,96,16,32,456,40},
{152,96,16,32,458,41},{168,96,16,32,460,42},{184,96,16,32,462,43},{200,96,16,32,464,44},{216,96,16,32,466,45},{232,96,16,32,468,46},{0,120,32,32,296,47},{32,120,16,32,470,48},
{48,120,16,32,472,49},{64,120,16,32,474,50},{80,120,16,32,476,51},{96,120,16,32,478,52},{112,120,16,32,480,53},{128,120,16,32,482,54},{144,120,16,32,484,55},{160,120,16,32,486,56},
{176,120,16,32,488,57},{192,120,16,32,490,58},{208,120,16,32,492,59},{224,120,32,32,300,60},{0,144,16,16,313,61},{24,144,16,16,508,62},{40,144,16,16,509,63},{56,144,16,16,510,64},
{80,144,32,16,496,65},{112,144,16,16,495,65},{128,144,16,16,495,65},{144,144,16,16,495,65},{160,144,16,16,495,65},{176,144,16,16,494,65},{200,144,16,16,309,66},{216,144,16,16,310,67},
{240,144,16,16,311,68},{0,-1,16,16,505,101},{16,-1,32,16,499,101},{48,-1,16,16,504,102},{64,-1,32,16,499,102},{96,-1,16,16,503,103},{112,-1,32,16,499,103},{144,-1,16,16,502,104},
{160,-1,32,16,499,104},{192,-1,16,16,501,105},{208,-1,32,16,499,105},{240,0,16,16,315,106},{0,168,32,32,304,70},{40,168,32,32,256,71},{72,168,16,32,260,71},{88,168,16,32,262,72},
{104,168,32,32,264,72},{144,168,16,16,-1,80},{144,180,16,16,-1,81},{160,168,32,32,-1,90},{184,168,32,32,-1,91},{208,168,32,32,-1,92},{232,168,32,32,-1,93},
};
