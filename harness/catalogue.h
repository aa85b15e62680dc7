// constants of the shipped media and particles (data sheets)
static const std::vector<MediumData> media {
    { "water", { 79.7, -3.5017, 0.09116, 3.4773, 0.24, 2.8004, 0, 1 }, { { "H", 1, 1.00794, 2 }, { "O", 8, 15.9994, 1 }, } },
    { "waterpdg2001", { 75, -3.5017, 0.09116, 3.4773, 0.24, 2.8004, 0, 1 }, { { "H", 1, 1.00794, 2 }, { "O", 8, 15.9994, 1 }, } },
    { "waterpdg2020", { 79.7, -3.5017, 0.09116, 3.4773, 0.24, 2.8004, 0, 1 }, { { "H", 1, 1.00794, 2 }, { "O", 8, 15.9994, 1 }, } },
    { "ice", { 79.7, -3.5873, 0.09116, 3.4773, 0.2586, 2.819, 0, 0.918 }, { { "H", 1, 1.00794, 2 }, { "O", 8, 15.9994, 1 }, } },
    { "icepdg2001", { 75, -3.5017, 0.09116, 3.4773, 0.24, 2.8004, 0, 0.917 }, { { "H", 1, 1.00794, 2 }, { "O", 8, 15.9994, 1 }, } },
    { "icepdg2020", { 79.7, -3.5873, 0.09116, 3.4773, 0.2586, 2.819, 0, 0.918 }, { { "H", 1, 1.00794, 2 }, { "O", 8, 15.9994, 1 }, } },
    { "salt", { 175.3, -4.5041, 0.1632, 3, 0.2, 3, 0, 2.323 }, { { "Na", 11, 22.98977, 1 }, { "Cl", 17, 35.4527, 1 }, } },
    { "standardrock", { 136.4, -3.7738, 0.08301, 3.412, 0.0492, 3.0549, 0, 2.65 }, { { "StandardRock", 11, 22, 1 }, } },
    { "frejusrock", { 149, -5.053, 0.078, 3.645, 0.288, 3.196, 0, 2.74 }, { { "FrejusRock", 10.12, 20.34, 1 }, } },
    { "iron", { 286, -4.2911, 0.1468, 2.9632, -0.0012, 3.1531, 0.12, 7.874 }, { { "Fe", 26, 55.845, 1 }, } },
    { "hydrogen", { 21.8, -3.0977, 0.13483, 5.6249, 0.44, 1.8856, 0, 0.0708 }, { { "H", 1, 1.00794, 2 }, } },
    { "lead", { 823, -6.2018, 0.09359, 3.1608, 0.3776, 3.8073, 0.14, 11.35 }, { { "Pb", 82, 207.2, 1 }, } },
    { "copper", { 322, -4.419, 0.14339, 2.9044, -0.0254, 3.2792, 0.08, 8.96 }, { { "Cu", 29, 63.546, 1 }, } },
    { "uranium", { 890, -5.8694, 0.19677, 2.8171, 0.226, 3.3721, 0.14, 18.95 }, { { "U", 92, 238.0289, 1 }, } },
    { "air", { 85.7, -10.5961, 0.10914, 3.3994, 1.7418, 4.2759, 0, 0.001205 }, { { "N", 7, 14.0067, 156.2 }, { "O", 8, 15.9994, 42 }, { "Ar", 18, 39.948, 0.9 }, } },
    { "paraffin", { 55.9, -2.9551, 0.1209, 3.4288, 0.1289, 2.5084, 0, 0.93 }, { { "C", 6, 12.0011, 25 }, { "O", 8, 15.9994, 52 }, } },
    { "antareswater", { 75, -3.5017, 0.09116, 3.4773, 0.24, 2.8004, 0, 1.03975 }, { { "H", 1, 1.00794, 2 }, { "O", 8, 15.9994, 1.00884 }, { "Na", 11, 22.98977, 0.00943 }, { "K", 19, 39.1, 0.000209 }, { "Mg", 12, 24.31, 0.001087 }, { "Ca", 20, 40.08, 0.000209 }, { "Cl", 17, 35.4527, 0.01106 }, { "S", 16, 32.07, 0.00582 }, } },
    { "cascadiabasinwater", { 75, -3.5017, 0.09116, 3.4773, 0.24, 2.8004, 0, 1.0400322 }, { { "H", 1, 1.00794, 2 }, { "O", 8, 15.9994, 1.0021 }, { "Na", 11, 22.98977, 0.0087174 }, { "Mg", 12, 24.31, 0.0009818 }, { "Ca", 20, 40.08, 0.00019113 }, { "K", 19, 39.1, 0.00018975 }, { "Cl", 17, 35.4527, 0.010147 }, { "S", 16, 32.07, 0.00052487 }, } },
    { "liquidargon", { 188, -5.2146, 0.19559, 3, 0.2, 3, 0, 1.396 }, { { "Ar", 18, 39.948, 1 }, } },
    { "calciumcarbonate", { 136.4, -3.7738, 0.08301, 3.412, 0.0492, 3.0549, 0, 2.65 }, { { "Ca", 20, 40.08, 1 }, { "C", 6, 12.0011, 1 }, { "O", 8, 15.9994, 3 } } },
};
static const std::vector<ParticleData> particles {
    { 11, 0.5109989461, 0.5109989461, INF, -1, 12, { } },
    { -11, 0.5109989461, 0.5109989461, INF, 1, -12, { } },
    { 13, 105.6583745, 105.6583745, 2.1969811e-06, -1, 14, { { 0.0007174409, 0.0017132, 0.004082304, 0.008628455, 0.01244159, 0.02204591, 0.03228755, }, { -0.2436045, -0.5756682, -1.553973, -3.251305, -5.976818, -9.495636, -13.92918, }, { -0.2942209, -0.68615, -2.004218, -3.999623, -6.855045, -10.05705, -14.37232, }, { -0.1658391, -0.3825223, -1.207777, -2.33175, -3.88775, -5.636636, -8.418409, }, { -0.05227727, -0.1196482, -0.4033373, -0.7614046, -1.270677, -1.883845, -2.948277, }, { -0.009328318, -0.02124577, -0.07555636, -0.1402496, -0.2370768, -0.3614146, -0.5819409, }, { -0.0008751909, -0.001987841, -0.007399682, -0.01354059, -0.02325118, -0.03629659, -0.059275, }, { -3.343145e-05, -7.584046e-05, -0.0002943396, -0.00053155, -0.0009265136, -0.001473118, -0.002419946, }, } },
    { -13, 105.6583745, 105.6583745, 2.1969811e-06, 1, -14, { { 0.0007174409, 0.0017132, 0.004082304, 0.008628455, 0.01244159, 0.02204591, 0.03228755, }, { -0.2436045, -0.5756682, -1.553973, -3.251305, -5.976818, -9.495636, -13.92918, }, { -0.2942209, -0.68615, -2.004218, -3.999623, -6.855045, -10.05705, -14.37232, }, { -0.1658391, -0.3825223, -1.207777, -2.33175, -3.88775, -5.636636, -8.418409, }, { -0.05227727, -0.1196482, -0.4033373, -0.7614046, -1.270677, -1.883845, -2.948277, }, { -0.009328318, -0.02124577, -0.07555636, -0.1402496, -0.2370768, -0.3614146, -0.5819409, }, { -0.0008751909, -0.001987841, -0.007399682, -0.01354059, -0.02325118, -0.03629659, -0.059275, }, { -3.343145e-05, -7.584046e-05, -0.0002943396, -0.00053155, -0.0009265136, -0.001473118, -0.002419946, }, } },
    { 15, 1776.86, 1776.86, 2.903e-13, -1, 16, { { -0.0001269205, -0.0002843877, -0.0005761546, -0.001195445, -0.001317386, -9.689228e-15, -6.4595e-15, }, { -0.01563032, -0.03589573, -0.07768545, -0.157375, -0.2720009, -0.4186136, -0.8045046, }, { 0.04693954, 0.1162945, 0.3064255, 0.7041273, 1.440518, 2.533355, 3.217832, }, { 0.05338546, 0.130975, 0.3410341, 0.7529364, 1.425927, 2.284968, 2.5487, }, { 0.02240132, 0.05496, 0.144945, 0.3119032, 0.5576727, 0.8360727, 0.8085682, }, { 0.004658909, 0.01146659, 0.03090286, 0.06514455, 0.1109868, 0.1589677, 0.1344223, }, { 0.0004822364, 0.001193018, 0.003302773, 0.006843364, 0.011191, 0.015614, 0.01173827, }, { 1.9837e-05, 4.940182e-05, 0.0001409573, 0.0002877909, 0.0004544877, 0.0006280818, 0.0004281932, }, } },
    { -15, 1776.86, 1776.86, 2.903e-13, 1, -16, { { -0.0001269205, -0.0002843877, -0.0005761546, -0.001195445, -0.001317386, -9.689228e-15, -6.4595e-15, }, { -0.01563032, -0.03589573, -0.07768545, -0.157375, -0.2720009, -0.4186136, -0.8045046, }, { 0.04693954, 0.1162945, 0.3064255, 0.7041273, 1.440518, 2.533355, 3.217832, }, { 0.05338546, 0.130975, 0.3410341, 0.7529364, 1.425927, 2.284968, 2.5487, }, { 0.02240132, 0.05496, 0.144945, 0.3119032, 0.5576727, 0.8360727, 0.8085682, }, { 0.004658909, 0.01146659, 0.03090286, 0.06514455, 0.1109868, 0.1589677, 0.1344223, }, { 0.0004822364, 0.001193018, 0.003302773, 0.006843364, 0.011191, 0.015614, 0.01173827, }, { 1.9837e-05, 4.940182e-05, 0.0001409573, 0.0002877909, 0.0004544877, 0.0006280818, 0.0004281932, }, } },
    { 1000015, 100000, 100000, INF, -1, 0, { } },
    { -1000015, 100000, 100000, INF, 1, 0, { } },
    { 111, 134.9766, 134.9766, 8.52e-17, 0, 0, { } },
    { -211, 139.57018, 139.57018, 2.6033e-08, -1, 0, { } },
    { 211, 139.57018, 139.57018, 2.6033e-08, 1, 0, { } },
    { 311, 493.677, 493.677, -1, 0, 0, { } },
    { -321, 493.677, 493.677, 1.238e-08, -1, 0, { } },
    { 321, 493.677, 493.677, 1.238e-08, 1, 0, { } },
    { 12, 0, 0, INF, 0, 11, { } },
    { -12, 0, 0, INF, 0, -11, { } },
    { 14, 0, 0, INF, 0, 13, { } },
    { -14, 0, 0, INF, 0, -13, { } },
    { 16, 0, 0, INF, 0, 15, { } },
    { -16, 0, 0, INF, 0, -15, { } },
    { 41, 100000, 100000, INF, 68.51799988, 0, { } },
    { 22, 0, 1.0219978922, INF, 0, 0, { } },
    { -9500, 100000, 100000, INF, -1, 0, { } },
    { 9500, 100000, 100000, INF, 1, 0, { } },
};
