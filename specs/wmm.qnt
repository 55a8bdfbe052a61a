// Gauss coefficients of WMM2025 as published (WMM.COF): degree, order, g, h, g', h' in 0.1 nT (per year).
module wmm {
  pure val COF: List[List[int]] = [
    [1,0,-293518,0,120,0], [1,1,-14108,45454,97,-215], [2,0,-25566,0,-116,0], [2,1,29511,-31336,-52,-277],
    [2,2,16493,-8151,-80,-121], [3,0,13610,0,-13,0], [3,1,-24041,-566,-42,40], [3,2,12438,2375,4,-3],
    [3,3,4536,-5495,-156,-41], [4,0,8950,0,-16,0], [4,1,7995,2786,-24,-11], [4,2,557,-1339,-60,41],
    [4,3,-2811,2120,56,16], [4,4,121,-3756,-70,-44], [5,0,-2332,0,6,0], [5,1,3689,454,14,-5],
    [5,2,1872,2202,0,22], [5,3,-1387,-1229,6,4], [5,4,-1420,430,22,17], [5,5,209,1061,9,19],
    [6,0,644,0,-2,0], [6,1,638,-184,-4,3], [6,2,769,168,9,-16], [6,3,-1157,488,12,-4],
    [6,4,-409,-598,-9,9], [6,5,149,109,3,7], [6,6,-607,727,9,9], [7,0,795,0,0,0],
    [7,1,-770,-489,-1,6], [7,2,-88,-144,-1,5], [7,3,593,-10,5,-8], [7,4,158,234,-1,0],
    [7,5,25,-74,-8,-10], [7,6,-111,-251,-8,6], [7,7,142,-23,8,-2], [8,0,232,0,-1,0],
    [8,1,108,71,2,-2], [8,2,-175,-126,0,5], [8,3,20,114,5,-4], [8,4,-217,-97,-1,4],
    [8,5,169,127,3,-5], [8,6,150,7,2,-6], [8,7,-168,-52,0,3], [8,8,9,39,2,2],
    [9,0,46,0,0,0], [9,1,78,-248,-1,-3], [9,2,30,122,1,3], [9,3,-2,83,3,-3],
    [9,4,-25,-33,-3,3], [9,5,-131,-52,0,2], [9,6,24,72,3,-1], [9,7,86,-6,-1,-2],
    [9,8,-87,8,1,4], [9,9,-129,100,-1,1], [10,0,-13,0,1,0], [10,1,-64,33,0,0],
    [10,2,2,0,1,0], [10,3,20,24,1,-2], [10,4,-10,53,0,1], [10,5,-6,-91,-3,-1],
    [10,6,-9,4,0,1], [10,7,15,-42,-1,0], [10,8,9,-38,-1,-1], [10,9,-27,9,0,2],
    [10,10,-39,-91,0,0], [11,0,29,0,0,0], [11,1,-15,0,0,0], [11,2,-25,29,0,1],
    [11,3,24,-6,0,0], [11,4,-6,2,0,1], [11,5,-1,5,-1,0], [11,6,-6,-3,0,0],
    [11,7,-1,-12,0,1], [11,8,11,-17,-1,0], [11,9,-10,-29,-1,0], [11,10,-2,-18,-1,0],
    [11,11,26,-23,-1,0], [12,0,-20,0,0,0], [12,1,-2,-13,0,0], [12,2,3,7,0,0],
    [12,3,12,10,0,-1], [12,4,-13,-14,0,1], [12,5,6,0,0,0], [12,6,6,6,1,0],
    [12,7,5,-1,0,0], [12,8,-1,8,0,0], [12,9,-4,1,0,0], [12,10,-2,-10,-1,0],
    [12,11,-13,1,0,0], [12,12,-7,2,-1,-1]
  ]
}
