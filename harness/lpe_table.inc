// Cartwright-Tayler-Edden potential lines: s h p N' p1 amplitude
static const double kOrder2[][6] = {
  {0, 0, 0, 1, 0, 0.02793},
  {0, 0, 0, 2, 0, -0.00027},
  {0, 0, 2, 1, 0, 0.00004},
  {0, 1, 0, -1, -1, -0.00004},
  {0, 1, 0, 0, -1, -0.00492},
  {0, 1, 0, 0, 1, 0.00026},
  {0, 1, 0, 1, -1, 0.00005},
  {0, 2, -2, -1, 0, 0.00002},
  {0, 2, -2, 0, 0, -0.00031},
  {0, 2, 0, 0, 0, -0.03095},
  {0, 2, 0, 0, -2, -0.00008},
  {0, 2, 0, 1, 0, 0.00077},
  {0, 2, 0, 2, 0, 0.00017},
  {0, 3, 0, 0, -1, -0.00181},
  {0, 3, 0, 1, -1, 0.00003},
  {0, 4, 0, 0, -2, -0.00007},
  {1, -3, 1, -1, 1, 0.00002},
  {1, -3, 1, 0, 1, -0.00029},
  {1, -3, 1, 1, 1, 0.00002},
  {1, -2, -1, -2, 0, 0.00003},
  {1, -2, -1, -1, 0, 0.00007},
  {1, -2, 1, -1, 0, 0.00048},
  {1, -2, 1, 0, 0, -0.00673},
  {1, -2, 1, 1, 0, 0.00043},
  {1, -1, -1, -1, 1, 0.00002},
  {1, -1, -1, 0, 1, -0.00021},
  {1, -1, -1, 1, 1, 0.00000},
  {1, -1, 0, 0, 0, 0.00020},
  {1, -1, 1, 0, -1, 0.00005},
  {1, 0, -1, -2, 0, -0.00003},
  {1, 0, -1, -1, 0, 0.00231},
  {1, 0, -1, 0, 0, -0.03518},
  {1, 0, -1, 1, 0, 0.00228},
  {1, 0, 1, 0, 0, 0.00189},
  {1, 0, 1, 1, 0, 0.00077},
  {1, 0, 1, 2, 0, 0.00021},
  {1, 1, -1, 0, -1, 0.00018},
  {1, 2, -1, 0, 0, 0.00049},
  {1, 2, -1, 1, 0, 0.00024},
  {1, 2, -1, 2, 0, 0.00004},
  {1, 3, -1, 0, -1, 0.00003},
  {2, -4, 2, 0, 0, -0.00011},
  {2, -3, 0, 0, 1, -0.00038},
  {2, -3, 0, 1, 1, 0.00002},
  {2, -2, 0, -1, 0, -0.00042},
  {2, -2, 0, 0, 0, -0.00582},
  {2, -2, 0, 1, 0, 0.00037},
  {2, -2, 2, 0, 0, 0.00004},
  {2, -1, -2, 0, 1, -0.00004},
  {2, -1, -1, 0, 0, 0.00003},
  {2, -1, 0, 0, -1, 0.00007},
  {2, -1, 0, 0, 1, -0.00020},
  {2, -1, 0, 1, 1, -0.00004},
  {2, 0, -2, -1, 0, 0.00015},
  {2, 0, -2, 0, 0, -0.00288},
  {2, 0, -2, 1, 0, 0.00019},
  {2, 0, 0, 0, 0, -0.06662},
  {2, 0, 0, 1, 0, -0.02762},
  {2, 0, 0, 2, 0, -0.00258},
  {2, 0, 0, 3, 0, 0.00007},
  {2, 1, -2, 0, -1, 0.00003},
  {2, 1, 0, 0, -1, 0.00023},
  {2, 1, 0, 1, -1, 0.00006},
  {2, 2, -2, 0, 0, 0.00020},
  {2, 2, -2, 1, 0, 0.00008},
  {2, 2, 0, 2, 0, 0.00003},
  {3, -5, 1, 0, 1, -0.00002},
  {3, -4, 1, 0, 0, -0.00017},
  {3, -3, -1, 0, 1, -0.00007},
  {3, -3, 1, 0, 1, -0.00012},
  {3, -3, 1, 1, 1, -0.00004},
  {3, -2, -1, -1, 0, -0.00010},
  {3, -2, -1, 0, 0, -0.00091},
  {3, -2, -1, 1, 0, 0.00006},
  {3, -2, 1, 0, 0, -0.00242},
  {3, -2, 1, 1, 0, -0.00100},
  {3, -2, 1, 2, 0, -0.00009},
  {3, -1, -1, 0, 1, -0.00013},
  {3, -1, -1, 1, 1, -0.00004},
  {3, -1, 0, 0, 0, 0.00006},
  {3, -1, 0, 1, 0, 0.00003},
  {3, -1, 1, 0, -1, 0.00003},
  {3, 0, -3, 0, 0, -0.00023},
  {3, 0, -3, 1, -1, 0.00004},
  {3, 0, -3, 1, 1, 0.00004},
  {3, 0, -1, 0, 0, -0.01275},
  {3, 0, -1, 1, 0, -0.00528},
  {3, 0, -1, 2, 0, -0.00051},
  {3, 0, 1, 2, 0, 0.00005},
  {3, 0, 1, 3, 0, 0.00002},
  {3, 1, -1, 0, -1, 0.00011},
  {3, 1, -1, 1, -1, 0.00004},
  {4, -4, 0, 0, 0, -0.00008},
  {4, -4, 2, 0, 0, -0.00006},
  {4, -4, 2, 1, 0, -0.00002},
  {4, -3, 0, 0, 1, -0.00014},
  {4, -3, 0, 1, 1, -0.00006},
  {4, -2, -2, 0, 0, -0.00011},
  {4, -2, 0, 0, 0, -0.00205},
  {4, -2, 0, 1, 0, -0.00085},
  {4, -2, 0, 2, 0, -0.00008},
  {4, -1, -2, 0, 1, -0.00003},
  {4, -1, 0, 0, -1, 0.00003},
  {4, 0, -2, 0, 0, -0.00169},
  {4, 0, -2, 1, 0, -0.00070},
  {4, 0, -2, 2, 0, -0.00006}};
static const double kOrder3[][6] = {
  {0, 0, 1, 0, 0, -0.00021},
  {0, 2, -1, 0, 0, -0.00004},
  {1, -2, 0, 0, 0, 0.00004},
  {1, 0, 0, -1, 0, 0.00019},
  {1, 0, 0, 0, 0, -0.00375},
  {1, 0, 0, 1, 0, -0.00059},
  {1, 0, 0, 2, 0, 0.00005},
  {2, -2, 1, 0, 0, -0.00012},
  {2, 0, -1, 0, 0, -0.00061},
  {2, 0, -1, 1, 0, -0.00010},
  {3, -2, 0, 0, 0, -0.00010},
  {3, 0, -2, 0, 0, -0.00007},
  {3, 0, 0, 0, 0, -0.00030},
  {3, 0, 0, 1, 0, -0.00019},
  {3, 0, 0, 2, 0, -0.00004},
  {4, 0, -1, 0, 0, -0.00008},
  {4, 0, -1, 1, 0, -0.00005}};
