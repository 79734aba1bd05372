// prime knots up to ten crossings, KnotTheory codes (from the table the repository ships as test data)
{3,1,{1,4,2,5,3,6,4,1,5,2,6,3}},
{4,1,{4,2,5,1,8,6,1,5,6,3,7,4,2,7,3,8}},
{5,1,{1,6,2,7,3,8,4,9,5,10,6,1,7,2,8,3,9,4,10,5}},
{5,2,{1,4,2,5,3,8,4,9,5,10,6,1,9,6,10,7,7,2,8,3}},
{6,1,{1,4,2,5,7,10,8,11,3,9,4,8,9,3,10,2,5,12,6,1,11,6,12,7}},
{6,2,{1,4,2,5,5,10,6,11,3,9,4,8,9,3,10,2,7,12,8,1,11,6,12,7}},
{6,3,{4,2,5,1,8,4,9,3,12,9,1,10,10,5,11,6,6,11,7,12,2,8,3,7}},
{7,1,{1,8,2,9,3,10,4,11,5,12,6,13,7,14,8,1,9,2,10,3,11,4,12,5,13,6,14,7}},
{7,2,{1,4,2,5,3,10,4,11,5,14,6,1,7,12,8,13,11,8,12,9,13,6,14,7,9,2,10,3}},
{7,3,{6,2,7,1,10,4,11,3,14,8,1,7,8,14,9,13,12,6,13,5,2,10,3,9,4,12,5,11}},
{7,4,{6,2,7,1,12,6,13,5,14,8,1,7,8,14,9,13,2,12,3,11,10,4,11,3,4,10,5,9}},
{7,5,{1,4,2,5,3,10,4,11,5,12,6,13,7,14,8,1,13,6,14,7,11,8,12,9,9,2,10,3}},
{7,6,{1,4,2,5,3,8,4,9,5,12,6,13,9,1,10,14,13,11,14,10,11,6,12,7,7,2,8,3}},
{7,7,{1,4,2,5,5,10,6,11,3,9,4,8,9,3,10,2,11,14,12,1,7,13,8,12,13,7,14,6}},
{8,1,{1,4,2,5,9,12,10,13,3,11,4,10,11,3,12,2,5,16,6,1,7,14,8,15,13,8,14,9,15,6,16,7}},
{8,2,{1,4,2,5,5,12,6,13,3,11,4,10,11,3,12,2,7,14,8,15,9,16,10,1,13,6,14,7,15,8,16,9}},
{8,3,{6,2,7,1,14,10,15,9,10,5,11,6,12,3,13,4,4,11,5,12,2,13,3,14,16,8,1,7,8,16,9,15}},
{8,4,{6,2,7,1,14,10,15,9,10,3,11,4,2,13,3,14,12,5,13,6,16,8,1,7,4,11,5,12,8,16,9,15}},
{8,5,{6,2,7,1,8,4,9,3,2,8,3,7,14,10,15,9,12,5,13,6,4,13,5,14,16,12,1,11,10,16,11,15}},
{8,6,{1,4,2,5,9,12,10,13,3,11,4,10,11,3,12,2,5,14,6,15,7,16,8,1,15,6,16,7,13,8,14,9}},
{8,7,{1,4,2,5,3,10,4,11,11,1,12,16,5,13,6,12,7,15,8,14,13,7,14,6,15,9,16,8,9,2,10,3}},
{8,8,{1,4,2,5,3,8,4,9,11,15,12,14,5,13,6,12,13,7,14,6,9,1,10,16,15,11,16,10,7,2,8,3}},
{8,9,{6,2,7,1,14,8,15,7,10,3,11,4,2,13,3,14,12,5,13,6,4,11,5,12,16,10,1,9,8,16,9,15}},
{8,10,{1,4,2,5,3,8,4,9,9,15,10,14,5,13,6,12,13,7,14,6,11,1,12,16,15,11,16,10,7,2,8,3}},
{8,11,{1,4,2,5,5,12,6,13,3,11,4,10,11,3,12,2,9,16,10,1,15,6,16,7,7,14,8,15,13,8,14,9}},
{8,12,{4,2,5,1,10,8,11,7,8,3,9,4,2,9,3,10,14,6,15,5,16,11,1,12,12,15,13,16,6,14,7,13}},
{8,13,{1,4,2,5,3,10,4,11,11,1,12,16,5,13,6,12,15,7,16,6,7,15,8,14,13,9,14,8,9,2,10,3}},
{8,14,{1,4,2,5,5,10,6,11,3,9,4,8,9,3,10,2,7,14,8,15,11,16,12,1,15,12,16,13,13,6,14,7}},
{8,15,{1,4,2,5,3,8,4,9,5,12,6,13,13,16,14,1,9,14,10,15,15,10,16,11,11,6,12,7,7,2,8,3}},
{8,16,{6,2,7,1,14,6,15,5,16,11,1,12,12,7,13,8,8,3,9,4,4,9,5,10,10,15,11,16,2,14,3,13}},
{8,17,{6,2,7,1,14,8,15,7,8,3,9,4,2,13,3,14,12,5,13,6,4,9,5,10,16,12,1,11,10,16,11,15}},
{8,18,{6,2,7,1,8,3,9,4,16,11,1,12,2,14,3,13,4,15,5,16,10,6,11,5,12,7,13,8,14,10,15,9}},
{8,19,{4,2,5,1,8,4,9,3,9,15,10,14,5,13,6,12,13,7,14,6,11,1,12,16,15,11,16,10,2,8,3,7}},
{8,20,{4,2,5,1,8,4,9,3,5,12,6,13,13,16,14,1,9,14,10,15,15,10,16,11,11,6,12,7,2,8,3,7}},
{8,21,{1,4,2,5,3,8,4,9,12,6,13,5,13,16,14,1,9,14,10,15,15,10,16,11,6,12,7,11,7,2,8,3}},
{9,1,{1,10,2,11,3,12,4,13,5,14,6,15,7,16,8,17,9,18,10,1,11,2,12,3,13,4,14,5,15,6,16,7,17,8,18,9}},
{9,2,{1,4,2,5,3,12,4,13,5,18,6,1,7,16,8,17,9,14,10,15,13,10,14,11,15,8,16,9,17,6,18,7,11,2,12,3}},
{9,3,{8,2,9,1,12,4,13,3,18,10,1,9,10,18,11,17,14,6,15,5,16,8,17,7,2,12,3,11,4,14,5,13,6,16,7,15}},
{9,4,{1,6,2,7,3,12,4,13,7,18,8,1,9,16,10,17,15,10,16,11,17,8,18,9,5,14,6,15,11,2,12,3,13,4,14,5}},
{9,5,{6,2,7,1,14,6,15,5,18,8,1,7,16,10,17,9,10,16,11,15,8,18,9,17,2,14,3,13,12,4,13,3,4,12,5,11}},
{9,6,{1,4,2,5,3,12,4,13,5,14,6,15,7,16,8,17,9,18,10,1,15,6,16,7,17,8,18,9,13,10,14,11,11,2,12,3}},
{9,7,{1,4,2,5,3,12,4,13,5,16,6,17,7,18,8,1,17,6,18,7,9,14,10,15,13,10,14,11,15,8,16,9,11,2,12,3}},
{9,8,{1,4,2,5,3,8,4,9,5,14,6,15,9,1,10,18,11,17,12,16,15,13,16,12,17,11,18,10,13,6,14,7,7,2,8,3}},
{9,9,{1,6,2,7,3,12,4,13,7,16,8,17,9,18,10,1,17,8,18,9,15,10,16,11,5,14,6,15,11,2,12,3,13,4,14,5}},
{9,10,{8,2,9,1,12,4,13,3,18,10,1,9,10,18,11,17,16,8,17,7,2,12,3,11,4,16,5,15,14,6,15,5,6,14,7,13}},
{9,11,{1,4,2,5,9,12,10,13,3,11,4,10,11,3,12,2,13,1,14,18,5,15,6,14,7,17,8,16,15,7,16,6,17,9,18,8}},
{9,12,{1,4,2,5,3,10,4,11,5,16,6,17,11,1,12,18,17,13,18,12,7,14,8,15,13,8,14,9,15,6,16,7,9,2,10,3}},
{9,13,{6,2,7,1,14,6,15,5,16,8,17,7,18,10,1,9,8,18,9,17,10,16,11,15,2,14,3,13,12,4,13,3,4,12,5,11}},
{9,14,{1,4,2,5,5,12,6,13,3,11,4,10,11,3,12,2,13,18,14,1,9,15,10,14,7,17,8,16,15,9,16,8,17,7,18,6}},
{9,15,{1,4,2,5,7,10,8,11,3,9,4,8,9,3,10,2,13,17,14,16,5,15,6,14,15,7,16,6,11,1,12,18,17,13,18,12}},
{9,16,{4,2,5,1,12,4,13,3,16,6,17,5,18,8,1,7,6,18,7,17,10,16,11,15,14,10,15,9,8,14,9,13,2,12,3,11}},
{9,17,{1,4,2,5,5,12,6,13,3,11,4,10,11,3,12,2,7,14,8,15,13,6,14,7,15,18,16,1,9,17,10,16,17,9,18,8}},
{9,18,{1,4,2,5,3,12,4,13,5,14,6,15,9,18,10,1,17,6,18,7,7,16,8,17,15,8,16,9,13,10,14,11,11,2,12,3}},
{9,19,{1,4,2,5,5,10,6,11,3,9,4,8,9,3,10,2,13,16,14,17,7,15,8,14,15,7,16,6,11,18,12,1,17,12,18,13}},
{9,20,{1,4,2,5,3,10,4,11,5,14,6,15,7,16,8,17,11,1,12,18,15,6,16,7,17,13,18,12,13,8,14,9,9,2,10,3}},
{9,21,{1,4,2,5,9,12,10,13,3,11,4,10,11,3,12,2,13,1,14,18,5,15,6,14,17,7,18,6,7,17,8,16,15,9,16,8}},
{9,22,{4,2,5,1,10,6,11,5,8,3,9,4,2,9,3,10,16,12,17,11,14,7,15,8,6,15,7,16,18,14,1,13,12,18,13,17}},
{9,23,{1,4,2,5,3,10,4,11,5,12,6,13,7,16,8,17,13,18,14,1,17,14,18,15,15,6,16,7,11,8,12,9,9,2,10,3}},
{9,24,{1,4,2,5,3,8,4,9,5,14,6,15,9,17,10,16,11,1,12,18,17,11,18,10,15,13,16,12,13,6,14,7,7,2,8,3}},
{9,25,{1,4,2,5,3,8,4,9,5,12,6,13,9,17,10,16,13,18,14,1,17,14,18,15,15,11,16,10,11,6,12,7,7,2,8,3}},
{9,26,{1,4,2,5,5,12,6,13,3,11,4,10,11,3,12,2,13,18,14,1,7,15,8,14,17,7,18,6,9,17,10,16,15,9,16,8}},
{9,27,{1,4,2,5,3,10,4,11,11,1,12,18,5,13,6,12,13,17,14,16,7,14,8,15,15,6,16,7,17,9,18,8,9,2,10,3}},
{9,28,{1,4,2,5,3,8,4,9,11,15,12,14,5,13,6,12,13,7,14,6,15,18,16,1,9,16,10,17,17,10,18,11,7,2,8,3}},
{9,29,{6,2,7,1,16,11,17,12,10,4,11,3,2,15,3,16,14,5,15,6,18,8,1,7,4,10,5,9,12,17,13,18,8,13,9,14}},
{9,30,{4,2,5,1,10,6,11,5,8,3,9,4,2,9,3,10,14,8,15,7,18,15,1,16,16,11,17,12,12,17,13,18,6,14,7,13}},
{9,31,{1,4,2,5,3,10,4,11,11,1,12,18,5,13,6,12,17,7,18,6,7,14,8,15,13,16,14,17,15,8,16,9,9,2,10,3}},
{9,32,{1,4,2,5,13,18,14,1,3,9,4,8,9,3,10,2,7,15,8,14,15,11,16,10,5,12,6,13,11,17,12,16,17,7,18,6}},
{9,33,{4,2,5,1,12,8,13,7,8,3,9,4,2,9,3,10,18,13,1,14,14,5,15,6,6,17,7,18,16,12,17,11,10,16,11,15}},
{9,34,{6,2,7,1,16,8,17,7,8,3,9,4,2,15,3,16,14,9,15,10,10,6,11,5,4,14,5,13,18,11,1,12,12,17,13,18}},
{9,35,{1,8,2,9,7,14,8,15,5,16,6,17,9,18,10,1,15,6,16,7,17,10,18,11,13,2,14,3,3,12,4,13,11,4,12,5}},
{9,36,{1,4,2,5,7,10,8,11,3,9,4,8,9,3,10,2,11,17,12,16,5,15,6,14,15,7,16,6,13,1,14,18,17,13,18,12}},
{9,37,{1,4,2,5,7,12,8,13,3,11,4,10,11,3,12,2,5,14,6,15,13,6,14,7,15,18,16,1,9,17,10,16,17,9,18,8}},
{9,38,{1,6,2,7,5,14,6,15,7,18,8,1,15,8,16,9,3,10,4,11,9,4,10,5,17,12,18,13,11,16,12,17,13,2,14,3}},
{9,39,{1,6,2,7,3,11,4,10,7,18,8,1,17,13,18,12,9,17,10,16,5,15,6,14,15,5,16,4,11,3,12,2,13,9,14,8}},
{9,40,{1,6,2,7,7,12,8,13,5,15,6,14,11,3,12,2,15,10,16,11,3,16,4,17,9,4,10,5,17,9,18,8,13,18,14,1}},
{9,41,{6,2,7,1,12,8,13,7,14,5,15,6,10,3,11,4,2,11,3,12,4,15,5,16,8,17,9,18,16,9,17,10,18,14,1,13}},
{9,42,{1,4,2,5,5,10,6,11,3,9,4,8,9,3,10,2,16,12,17,11,14,7,15,8,6,15,7,16,18,14,1,13,12,18,13,17}},
{9,43,{4,2,5,1,10,6,11,5,8,3,9,4,2,9,3,10,14,8,15,7,15,1,16,18,11,17,12,16,17,13,18,12,6,14,7,13}},
{9,44,{1,4,2,5,5,10,6,11,3,9,4,8,9,3,10,2,14,8,15,7,18,15,1,16,16,11,17,12,12,17,13,18,6,14,7,13}},
{9,45,{4,2,5,1,10,6,11,5,8,3,9,4,2,9,3,10,7,14,8,15,18,15,1,16,16,11,17,12,12,17,13,18,13,6,14,7}},
{9,46,{4,2,5,1,7,12,8,13,10,3,11,4,2,11,3,12,5,14,6,15,13,6,14,7,15,18,16,1,9,17,10,16,17,9,18,8}},
{9,47,{6,2,7,1,16,8,17,7,8,3,9,4,2,15,3,16,14,9,15,10,10,6,11,5,4,14,5,13,11,1,12,18,17,13,18,12}},
{9,48,{1,4,2,5,12,8,13,7,3,11,4,10,11,3,12,2,14,6,15,5,6,14,7,13,15,18,16,1,9,17,10,16,17,9,18,8}},
{9,49,{6,2,7,1,12,8,13,7,5,15,6,14,3,11,4,10,11,3,12,2,15,5,16,4,17,9,18,8,9,17,10,16,18,14,1,13}},
{10,1,{1,4,2,5,11,14,12,15,3,13,4,12,13,3,14,2,5,20,6,1,7,18,8,19,9,16,10,17,15,10,16,11,17,8,18,9,19,6,20,7}},
{10,2,{1,4,2,5,5,14,6,15,3,13,4,12,13,3,14,2,7,16,8,17,9,18,10,19,11,20,12,1,15,6,16,7,17,8,18,9,19,10,20,11}},
{10,3,{1,6,2,7,11,16,12,17,5,13,6,12,3,15,4,14,13,5,14,4,15,3,16,2,7,20,8,1,9,18,10,19,17,10,18,11,19,8,20,9}},
{10,4,{6,2,7,1,16,12,17,11,12,3,13,4,2,15,3,16,14,5,15,6,20,8,1,7,18,10,19,9,4,13,5,14,10,18,11,17,8,20,9,19}},
{10,5,{1,4,2,5,3,12,4,13,13,1,14,20,5,15,6,14,7,17,8,16,9,19,10,18,15,7,16,6,17,9,18,8,19,11,20,10,11,2,12,3}},
{10,6,{1,4,2,5,11,14,12,15,3,13,4,12,13,3,14,2,5,16,6,17,7,18,8,19,9,20,10,1,17,6,18,7,19,8,20,9,15,10,16,11}},
{10,7,{1,4,2,5,5,14,6,15,3,13,4,12,13,3,14,2,11,20,12,1,19,6,20,7,7,18,8,19,9,16,10,17,15,10,16,11,17,8,18,9}},
{10,8,{1,6,2,7,7,16,8,17,5,13,6,12,3,15,4,14,13,5,14,4,15,3,16,2,9,18,10,19,11,20,12,1,17,8,18,9,19,10,20,11}},
{10,9,{6,2,7,1,16,8,17,7,12,3,13,4,2,15,3,16,14,5,15,6,4,13,5,14,18,10,19,9,20,12,1,11,8,18,9,17,10,20,11,19}},
{10,10,{1,4,2,5,3,12,4,13,13,1,14,20,5,15,6,14,19,7,20,6,7,19,8,18,9,17,10,16,15,11,16,10,17,9,18,8,11,2,12,3}},
{10,11,{1,6,2,7,11,16,12,17,5,13,6,12,3,15,4,14,13,5,14,4,15,3,16,2,7,18,8,19,9,20,10,1,19,8,20,9,17,10,18,11}},
{10,12,{1,4,2,5,3,10,4,11,13,19,14,18,5,15,6,14,7,17,8,16,15,7,16,6,17,9,18,8,11,1,12,20,19,13,20,12,9,2,10,3}},
{10,13,{1,4,2,5,9,12,10,13,3,11,4,10,11,3,12,2,5,18,6,19,13,1,14,20,19,15,20,14,7,16,8,17,15,8,16,9,17,6,18,7}},
{10,14,{1,4,2,5,5,12,6,13,3,11,4,10,11,3,12,2,7,16,8,17,13,20,14,1,19,14,20,15,9,18,10,19,15,6,16,7,17,8,18,9}},
{10,15,{1,4,2,5,3,12,4,13,9,14,10,15,13,10,14,11,15,1,16,20,5,17,6,16,7,19,8,18,17,7,18,6,19,9,20,8,11,2,12,3}},
{10,16,{6,2,7,1,16,8,17,7,12,5,13,6,14,3,15,4,4,13,5,14,2,15,3,16,20,12,1,11,8,20,9,19,18,10,19,9,10,18,11,17}},
{10,17,{6,2,7,1,12,4,13,3,20,15,1,16,16,7,17,8,18,9,19,10,8,17,9,18,10,19,11,20,14,6,15,5,2,12,3,11,4,14,5,13}},
{10,18,{1,4,2,5,3,12,4,13,5,14,6,15,15,20,16,1,9,17,10,16,7,19,8,18,17,9,18,8,19,7,20,6,13,10,14,11,11,2,12,3}},
{10,19,{1,6,2,7,3,12,4,13,15,1,16,20,7,17,8,16,19,9,20,8,9,19,10,18,17,11,18,10,5,14,6,15,11,2,12,3,13,4,14,5}},
{10,20,{1,4,2,5,11,14,12,15,3,13,4,12,13,3,14,2,5,18,6,19,7,20,8,1,19,6,20,7,9,16,10,17,15,10,16,11,17,8,18,9}},
{10,21,{1,4,2,5,5,14,6,15,3,13,4,12,13,3,14,2,7,16,8,17,11,20,12,1,15,6,16,7,19,8,20,9,9,18,10,19,17,10,18,11}},
{10,22,{6,2,7,1,16,12,17,11,12,3,13,4,2,15,3,16,14,5,15,6,18,8,19,7,20,10,1,9,8,20,9,19,4,13,5,14,10,18,11,17}},
{10,23,{1,4,2,5,3,12,4,13,13,1,14,20,5,15,6,14,7,17,8,16,15,7,16,6,19,9,20,8,9,19,10,18,17,11,18,10,11,2,12,3}},
{10,24,{1,4,2,5,11,14,12,15,3,13,4,12,13,3,14,2,5,16,6,17,9,20,10,1,19,6,20,7,7,18,8,19,17,8,18,9,15,10,16,11}},
{10,25,{1,4,2,5,5,14,6,15,3,13,4,12,13,3,14,2,11,20,12,1,19,6,20,7,9,18,10,19,7,16,8,17,17,8,18,9,15,10,16,11}},
{10,26,{6,2,7,1,16,8,17,7,12,3,13,4,2,15,3,16,14,5,15,6,4,13,5,14,20,12,1,11,8,20,9,19,18,10,19,9,10,18,11,17}},
{10,27,{4,2,5,1,12,4,13,3,20,13,1,14,14,5,15,6,6,19,7,20,18,9,19,10,16,7,17,8,8,17,9,18,10,15,11,16,2,12,3,11}},
{10,28,{1,4,2,5,3,10,4,11,13,19,14,18,5,15,6,14,17,7,18,6,7,17,8,16,15,9,16,8,11,1,12,20,19,13,20,12,9,2,10,3}},
{10,29,{1,4,2,5,9,12,10,13,3,11,4,10,11,3,12,2,5,16,6,17,7,18,8,19,13,1,14,20,17,6,18,7,19,15,20,14,15,8,16,9}},
{10,30,{1,4,2,5,5,12,6,13,3,11,4,10,11,3,12,2,9,18,10,19,13,20,14,1,19,14,20,15,17,6,18,7,7,16,8,17,15,8,16,9}},
{10,31,{1,4,2,5,3,12,4,13,9,14,10,15,13,10,14,11,15,1,16,20,5,17,6,16,19,7,20,6,7,19,8,18,17,9,18,8,11,2,12,3}},
{10,32,{1,4,2,5,3,12,4,13,5,14,6,15,15,20,16,1,7,17,8,16,19,7,20,6,9,19,10,18,17,9,18,8,13,10,14,11,11,2,12,3}},
{10,33,{6,2,7,1,14,6,15,5,20,15,1,16,16,7,17,8,8,19,9,20,18,9,19,10,10,17,11,18,2,14,3,13,12,4,13,3,4,12,5,11}},
{10,34,{1,4,2,5,3,8,4,9,13,17,14,16,5,15,6,14,15,7,16,6,9,1,10,20,11,19,12,18,17,13,18,12,19,11,20,10,7,2,8,3}},
{10,35,{1,4,2,5,7,10,8,11,3,9,4,8,9,3,10,2,5,16,6,17,11,1,12,20,13,19,14,18,17,15,18,14,19,13,20,12,15,6,16,7}},
{10,36,{1,4,2,5,5,10,6,11,3,9,4,8,9,3,10,2,7,16,8,17,11,20,12,1,13,18,14,19,17,14,18,15,19,12,20,13,15,6,16,7}},
{10,37,{4,2,5,1,10,4,11,3,12,8,13,7,8,12,9,11,18,15,19,16,16,5,17,6,6,17,7,18,20,13,1,14,14,19,15,20,2,10,3,9}},
{10,38,{1,4,2,5,3,10,4,11,5,12,6,13,15,18,16,19,7,17,8,16,17,7,18,6,13,20,14,1,19,14,20,15,11,8,12,9,9,2,10,3}},
{10,39,{1,4,2,5,5,12,6,13,3,11,4,10,11,3,12,2,7,14,8,15,9,18,10,19,15,20,16,1,19,16,20,17,13,6,14,7,17,8,18,9}},
{10,40,{1,4,2,5,3,10,4,11,11,1,12,20,5,13,6,12,7,17,8,16,15,19,16,18,19,15,20,14,13,7,14,6,17,9,18,8,9,2,10,3}},
{10,41,{1,4,2,5,5,12,6,13,3,11,4,10,11,3,12,2,9,20,10,1,15,19,16,18,13,8,14,9,17,6,18,7,7,16,8,17,19,15,20,14}},
{10,42,{1,4,2,5,3,10,4,11,11,1,12,20,5,13,6,12,15,18,16,19,13,9,14,8,17,7,18,6,7,17,8,16,19,14,20,15,9,2,10,3}},
{10,43,{4,2,5,1,10,4,11,3,14,8,15,7,20,11,1,12,12,19,13,20,8,14,9,13,18,15,19,16,16,5,17,6,6,17,7,18,2,10,3,9}},
{10,44,{1,4,2,5,5,12,6,13,3,11,4,10,11,3,12,2,13,20,14,1,9,15,10,14,15,18,16,19,7,16,8,17,17,8,18,9,19,7,20,6}},
{10,45,{4,2,5,1,12,6,13,5,10,3,11,4,2,11,3,12,20,14,1,13,14,7,15,8,6,19,7,20,18,15,19,16,16,10,17,9,8,18,9,17}},
{10,46,{6,2,7,1,8,4,9,3,2,8,3,7,16,10,17,9,14,5,15,6,4,15,5,16,18,12,19,11,20,14,1,13,10,18,11,17,12,20,13,19}},
{10,47,{1,4,2,5,3,8,4,9,9,17,10,16,5,15,6,14,15,7,16,6,11,19,12,18,13,1,14,20,17,11,18,10,19,13,20,12,7,2,8,3}},
{10,48,{6,2,7,1,8,4,9,3,14,6,15,5,20,15,1,16,16,9,17,10,18,11,19,12,10,17,11,18,12,19,13,20,2,8,3,7,4,14,5,13}},
{10,49,{1,4,2,5,3,8,4,9,5,14,6,15,15,20,16,1,9,16,10,17,11,18,12,19,17,10,18,11,19,12,20,13,13,6,14,7,7,2,8,3}},
{10,50,{6,2,7,1,8,4,9,3,2,8,3,7,16,10,17,9,14,5,15,6,4,15,5,16,20,14,1,13,10,20,11,19,18,12,19,11,12,18,13,17}},
{10,51,{1,4,2,5,3,8,4,9,9,17,10,16,5,15,6,14,15,7,16,6,13,1,14,20,19,11,20,10,11,19,12,18,17,13,18,12,7,2,8,3}},
{10,52,{6,2,7,1,8,4,9,3,14,6,15,5,20,15,1,16,16,9,17,10,10,19,11,20,18,11,19,12,12,17,13,18,2,8,3,7,4,14,5,13}},
{10,53,{1,4,2,5,3,8,4,9,5,14,6,15,15,20,16,1,9,16,10,17,19,10,20,11,11,18,12,19,17,12,18,13,13,6,14,7,7,2,8,3}},
{10,54,{1,4,2,5,3,10,4,11,7,12,8,13,11,8,12,9,13,19,14,18,5,17,6,16,17,7,18,6,15,1,16,20,19,15,20,14,9,2,10,3}},
{10,55,{1,4,2,5,3,8,4,9,5,12,6,13,15,18,16,19,9,16,10,17,17,10,18,11,13,20,14,1,19,14,20,15,11,6,12,7,7,2,8,3}},
{10,56,{4,2,5,1,10,4,11,3,12,6,13,5,18,14,19,13,16,7,17,8,6,17,7,18,20,16,1,15,14,20,15,19,8,12,9,11,2,10,3,9}},
{10,57,{1,4,2,5,3,8,4,9,9,15,10,14,5,13,6,12,13,7,14,6,11,19,12,18,15,1,16,20,19,17,20,16,17,11,18,10,7,2,8,3}},
{10,58,{1,4,2,5,7,10,8,11,3,9,4,8,9,3,10,2,5,14,6,15,11,19,12,18,15,20,16,1,19,16,20,17,17,13,18,12,13,6,14,7}},
{10,59,{4,2,5,1,10,6,11,5,8,3,9,4,2,9,3,10,14,8,15,7,18,12,19,11,20,15,1,16,16,19,17,20,12,18,13,17,6,14,7,13}},
{10,60,{4,2,5,1,10,6,11,5,8,3,9,4,2,9,3,10,16,12,17,11,14,7,15,8,6,15,7,16,20,18,1,17,18,13,19,14,12,19,13,20}},
{10,61,{8,2,9,1,10,4,11,3,2,10,3,9,18,12,19,11,14,7,15,8,16,5,17,6,6,15,7,16,4,17,5,18,20,14,1,13,12,20,13,19}},
{10,62,{1,4,2,5,3,10,4,11,11,19,12,18,5,15,6,14,7,17,8,16,15,7,16,6,17,9,18,8,13,1,14,20,19,13,20,12,9,2,10,3}},
{10,63,{1,4,2,5,3,10,4,11,5,16,6,17,17,20,18,1,11,18,12,19,19,12,20,13,7,14,8,15,13,8,14,9,15,6,16,7,9,2,10,3}},
{10,64,{8,2,9,1,10,4,11,3,2,10,3,9,18,12,19,11,14,5,15,6,4,17,5,18,16,7,17,8,6,15,7,16,20,14,1,13,12,20,13,19}},
{10,65,{1,4,2,5,3,10,4,11,11,19,12,18,5,15,6,14,17,7,18,6,7,17,8,16,15,9,16,8,13,1,14,20,19,13,20,12,9,2,10,3}},
{10,66,{1,4,2,5,3,10,4,11,5,14,6,15,7,16,8,17,15,6,16,7,17,20,18,1,11,18,12,19,19,12,20,13,13,8,14,9,9,2,10,3}},
{10,67,{1,4,2,5,7,12,8,13,3,11,4,10,11,3,12,2,5,14,6,15,13,6,14,7,9,18,10,19,15,20,16,1,19,16,20,17,17,8,18,9}},
{10,68,{4,2,5,1,12,4,13,3,20,13,1,14,16,5,17,6,8,19,9,20,18,9,19,10,10,17,11,18,14,7,15,8,6,15,7,16,2,12,3,11}},
{10,69,{1,4,2,5,7,12,8,13,3,11,4,10,11,3,12,2,13,17,14,16,5,15,6,14,15,7,16,6,17,20,18,1,9,19,10,18,19,9,20,8}},
{10,70,{1,4,2,5,7,10,8,11,3,9,4,8,9,3,10,2,5,16,6,17,11,19,12,18,13,1,14,20,19,13,20,12,17,15,18,14,15,6,16,7}},
{10,71,{1,4,2,5,3,8,4,9,11,15,12,14,5,13,6,12,13,7,14,6,9,19,10,18,15,20,16,1,19,16,20,17,17,11,18,10,7,2,8,3}},
{10,72,{4,2,5,1,10,6,11,5,8,3,9,4,2,9,3,10,16,8,17,7,18,12,19,11,20,14,1,13,12,20,13,19,14,18,15,17,6,16,7,15}},
{10,73,{4,2,5,1,10,6,11,5,8,3,9,4,2,9,3,10,16,14,17,13,14,7,15,8,6,15,7,16,20,17,1,18,18,11,19,12,12,19,13,20}},
{10,74,{1,4,2,5,5,14,6,15,3,13,4,12,13,3,14,2,11,18,12,19,9,20,10,1,19,10,20,11,17,6,18,7,7,16,8,17,15,8,16,9}},
{10,75,{1,4,2,5,5,12,6,13,3,11,4,10,11,3,12,2,13,16,14,17,7,15,8,14,15,7,16,6,17,20,18,1,9,19,10,18,19,9,20,8}},
{10,76,{4,2,5,1,14,10,15,9,12,3,13,4,2,13,3,14,18,6,19,5,20,8,1,7,6,20,7,19,8,18,9,17,16,12,17,11,10,16,11,15}},
{10,77,{1,4,2,5,3,8,4,9,13,17,14,16,5,15,6,14,15,7,16,6,9,19,10,18,11,1,12,20,19,11,20,10,17,13,18,12,7,2,8,3}},
{10,78,{1,4,2,5,3,8,4,9,5,14,6,15,11,17,12,16,15,13,16,12,17,20,18,1,9,18,10,19,19,10,20,11,13,6,14,7,7,2,8,3}},
{10,79,{6,2,7,1,8,4,9,3,12,6,13,5,18,13,19,14,16,9,17,10,10,17,11,18,20,15,1,16,14,19,15,20,2,8,3,7,4,12,5,11}},
{10,80,{1,4,2,5,3,8,4,9,5,12,6,13,13,18,14,19,9,16,10,17,17,10,18,11,15,20,16,1,19,14,20,15,11,6,12,7,7,2,8,3}},
{10,81,{4,2,5,1,8,4,9,3,12,6,13,5,16,9,17,10,20,17,1,18,18,13,19,14,14,19,15,20,10,15,11,16,6,12,7,11,2,8,3,7}},
{10,82,{1,6,2,7,7,16,8,17,3,9,4,8,15,3,16,2,5,15,6,14,9,5,10,4,11,18,12,19,13,20,14,1,17,10,18,11,19,12,20,13}},
{10,83,{1,6,2,7,5,16,6,17,13,1,14,20,7,15,8,14,3,9,4,8,9,5,10,4,19,11,20,10,11,19,12,18,17,13,18,12,15,2,16,3}},
{10,84,{4,2,5,1,10,4,11,3,8,12,9,11,20,15,1,16,16,5,17,6,12,18,13,17,14,8,15,7,18,14,19,13,6,19,7,20,2,10,3,9}},
{10,85,{6,2,7,1,16,6,17,5,18,11,19,12,14,7,15,8,8,3,9,4,4,9,5,10,20,13,1,14,10,17,11,18,12,19,13,20,2,16,3,15}},
{10,86,{6,2,7,1,16,8,17,7,8,3,9,4,2,15,3,16,14,5,15,6,4,9,5,10,20,14,1,13,10,20,11,19,18,12,19,11,12,18,13,17}},
{10,87,{4,2,5,1,10,4,11,3,14,6,15,5,20,16,1,15,16,7,17,8,6,19,7,20,8,12,9,11,18,13,19,14,12,17,13,18,2,10,3,9}},
{10,88,{4,2,5,1,20,14,1,13,8,3,9,4,2,9,3,10,14,7,15,8,18,15,19,16,12,6,13,5,10,18,11,17,16,12,17,11,6,19,7,20}},
{10,89,{4,2,5,1,12,8,13,7,8,3,9,4,2,9,3,10,20,13,1,14,14,5,15,6,6,19,7,20,18,16,19,15,16,11,17,12,10,17,11,18}},
{10,90,{6,2,7,1,2,8,3,7,18,14,19,13,14,5,15,6,20,12,1,11,12,20,13,19,8,15,9,16,10,4,11,3,16,9,17,10,4,17,5,18}},
{10,91,{6,2,7,1,20,6,1,5,16,9,17,10,10,3,11,4,2,18,3,17,14,7,15,8,8,15,9,16,12,20,13,19,18,12,19,11,4,13,5,14}},
{10,92,{4,2,5,1,10,4,11,3,14,6,15,5,20,16,1,15,16,12,17,11,18,7,19,8,12,18,13,17,6,19,7,20,8,14,9,13,2,10,3,9}},
{10,93,{6,2,7,1,16,6,17,5,20,8,1,7,18,13,19,14,14,9,15,10,10,3,11,4,4,11,5,12,12,17,13,18,8,20,9,19,2,16,3,15}},
{10,94,{6,2,7,1,2,8,3,7,18,12,19,11,14,5,15,6,20,14,1,13,8,15,9,16,10,4,11,3,16,9,17,10,4,17,5,18,12,20,13,19}},
{10,95,{1,4,2,5,3,10,4,11,11,17,12,16,15,9,16,8,19,7,20,6,5,15,6,14,7,19,8,18,13,1,14,20,17,13,18,12,9,2,10,3}},
{10,96,{1,4,2,5,5,18,6,19,3,9,4,8,9,3,10,2,11,17,12,16,7,12,8,13,15,6,16,7,17,11,18,10,13,1,14,20,19,15,20,14}},
{10,97,{4,2,5,1,12,6,13,5,8,3,9,4,2,9,3,10,16,12,17,11,10,18,11,17,18,8,19,7,20,14,1,13,14,20,15,19,6,16,7,15}},
{10,98,{1,6,2,7,3,10,4,11,7,18,8,19,17,8,18,9,9,2,10,3,11,16,12,17,5,15,6,14,15,5,16,4,13,20,14,1,19,12,20,13}},
{10,99,{6,2,7,1,10,4,11,3,16,11,17,12,14,7,15,8,8,15,9,16,20,13,1,14,12,19,13,20,18,6,19,5,2,10,3,9,4,18,5,17}},
{10,100,{6,2,7,1,18,6,19,5,20,13,1,14,14,7,15,8,10,3,11,4,16,9,17,10,4,11,5,12,8,15,9,16,12,19,13,20,2,18,3,17}},
{10,101,{4,2,5,1,10,4,11,3,14,6,15,5,20,16,1,15,16,12,17,11,12,20,13,19,18,8,19,7,6,14,7,13,8,18,9,17,2,10,3,9}},
{10,102,{6,2,7,1,16,10,17,9,10,3,11,4,2,15,3,16,14,5,15,6,18,8,19,7,4,11,5,12,8,18,9,17,20,14,1,13,12,20,13,19}},
{10,103,{6,2,7,1,18,6,19,5,20,13,1,14,16,7,17,8,10,3,11,4,4,11,5,12,14,9,15,10,8,15,9,16,12,19,13,20,2,18,3,17}},
{10,104,{6,2,7,1,16,4,17,3,18,9,19,10,14,7,15,8,20,13,1,14,8,17,9,18,10,19,11,20,12,6,13,5,4,12,5,11,2,16,3,15}},
{10,105,{4,2,5,1,12,4,13,3,20,8,1,7,16,5,17,6,6,15,7,16,10,17,11,18,18,9,19,10,8,14,9,13,14,20,15,19,2,12,3,11}},
{10,106,{6,2,7,1,16,8,17,7,10,3,11,4,2,15,3,16,14,5,15,6,4,11,5,12,18,10,19,9,20,14,1,13,8,18,9,17,12,20,13,19}},
{10,107,{1,4,2,5,3,12,4,13,7,14,8,15,9,19,10,18,19,7,20,6,5,17,6,16,17,11,18,10,13,8,14,9,15,1,16,20,11,2,12,3}},
{10,108,{6,2,7,1,16,4,17,3,20,13,1,14,14,7,15,8,8,19,9,20,18,9,19,10,10,17,11,18,12,6,13,5,4,12,5,11,2,16,3,15}},
{10,109,{6,2,7,1,10,4,11,3,18,11,19,12,16,7,17,8,8,17,9,18,20,15,1,16,12,19,13,20,14,6,15,5,2,10,3,9,4,14,5,13}},
{10,110,{1,6,2,7,7,20,8,1,3,11,4,10,5,16,6,17,17,8,18,9,9,14,10,15,11,3,12,2,15,4,16,5,13,19,14,18,19,13,20,12}},
{10,111,{6,2,7,1,10,4,11,3,14,8,15,7,8,14,9,13,2,10,3,9,18,12,19,11,16,5,17,6,4,17,5,18,20,16,1,15,12,20,13,19}},
{10,112,{6,2,7,1,8,3,9,4,18,11,19,12,20,13,1,14,2,16,3,15,4,17,5,18,12,19,13,20,10,6,11,5,14,7,15,8,16,10,17,9}},
{10,113,{4,2,5,1,10,4,11,3,14,6,15,5,20,16,1,15,12,7,13,8,8,18,9,17,6,19,7,20,16,12,17,11,18,13,19,14,2,10,3,9}},
{10,114,{6,2,7,1,8,3,9,4,18,13,19,14,20,11,1,12,12,19,13,20,2,16,3,15,4,17,5,18,10,6,11,5,14,7,15,8,16,10,17,9}},
{10,115,{6,2,7,1,14,6,15,5,20,15,1,16,16,7,17,8,8,19,9,20,18,11,19,12,10,4,11,3,4,10,5,9,12,17,13,18,2,14,3,13}},
{10,116,{6,2,7,1,16,3,17,4,14,7,15,8,8,15,9,16,10,18,11,17,18,6,19,5,20,13,1,14,12,19,13,20,2,10,3,9,4,11,5,12}},
{10,117,{1,6,2,7,5,16,6,17,13,1,14,20,7,15,8,14,19,9,20,8,3,11,4,10,11,5,12,4,9,19,10,18,17,13,18,12,15,2,16,3}},
{10,118,{6,2,7,1,18,6,19,5,20,13,1,14,12,19,13,20,14,7,15,8,8,3,9,4,2,16,3,15,10,18,11,17,16,10,17,9,4,11,5,12}},
{10,119,{1,6,2,7,7,18,8,19,3,9,4,8,17,3,18,2,5,15,6,14,9,17,10,16,15,11,16,10,11,5,12,4,13,20,14,1,19,12,20,13}},
{10,120,{1,6,2,7,5,18,6,19,13,20,14,1,11,16,12,17,3,10,4,11,7,12,8,13,9,4,10,5,15,8,16,9,19,14,20,15,17,2,18,3}},
{10,121,{1,6,2,7,7,20,8,1,9,19,10,18,3,11,4,10,17,5,18,4,5,12,6,13,11,16,12,17,19,14,20,15,13,8,14,9,15,2,16,3}},
{10,122,{1,6,2,7,7,15,8,14,15,2,16,3,5,12,6,13,9,19,10,18,3,11,4,10,17,5,18,4,19,9,20,8,11,16,12,17,13,1,14,20}},
{10,123,{8,2,9,1,10,3,11,4,12,6,13,5,4,18,5,17,18,11,19,12,2,15,3,16,16,10,17,9,20,14,1,13,14,7,15,8,6,19,7,20}},
{10,124,{4,2,5,1,8,4,9,3,9,17,10,16,5,15,6,14,15,7,16,6,11,19,12,18,13,1,14,20,17,11,18,10,19,13,20,12,2,8,3,7}},
{10,125,{1,4,2,5,3,8,4,9,5,14,6,15,20,16,1,15,16,10,17,9,18,12,19,11,10,18,11,17,12,20,13,19,13,6,14,7,7,2,8,3}},
{10,126,{4,2,5,1,8,4,9,3,5,14,6,15,15,20,16,1,9,16,10,17,11,18,12,19,17,10,18,11,19,12,20,13,13,6,14,7,2,8,3,7}},
{10,127,{1,4,2,5,3,8,4,9,14,6,15,5,15,20,16,1,9,16,10,17,11,18,12,19,17,10,18,11,19,12,20,13,6,14,7,13,7,2,8,3}},
{10,128,{4,2,5,1,8,4,9,3,9,17,10,16,5,15,6,14,15,7,16,6,13,1,14,20,19,11,20,10,11,19,12,18,17,13,18,12,2,8,3,7}},
{10,129,{1,4,2,5,3,8,4,9,5,14,6,15,20,16,1,15,16,10,17,9,10,20,11,19,18,12,19,11,12,18,13,17,13,6,14,7,7,2,8,3}},
{10,130,{4,2,5,1,8,4,9,3,5,14,6,15,15,20,16,1,9,16,10,17,19,10,20,11,11,18,12,19,17,12,18,13,13,6,14,7,2,8,3,7}},
{10,131,{1,4,2,5,3,8,4,9,14,6,15,5,15,20,16,1,9,16,10,17,19,10,20,11,11,18,12,19,17,12,18,13,6,14,7,13,7,2,8,3}},
{10,132,{4,2,5,1,8,4,9,3,5,12,6,13,15,18,16,19,9,16,10,17,17,10,18,11,13,20,14,1,19,14,20,15,11,6,12,7,2,8,3,7}},
{10,133,{1,4,2,5,3,8,4,9,14,9,15,10,5,13,6,12,13,7,14,6,18,11,19,12,20,15,1,16,16,19,17,20,10,17,11,18,7,2,8,3}},
{10,134,{4,2,5,1,8,4,9,3,9,15,10,14,5,13,6,12,13,7,14,6,11,19,12,18,15,1,16,20,19,17,20,16,17,11,18,10,2,8,3,7}},
{10,135,{1,4,2,5,3,8,4,9,9,15,10,14,12,5,13,6,6,13,7,14,11,19,12,18,15,1,16,20,19,17,20,16,17,11,18,10,7,2,8,3}},
{10,136,{1,4,2,5,5,10,6,11,3,9,4,8,9,3,10,2,14,8,15,7,18,12,19,11,20,15,1,16,16,19,17,20,12,18,13,17,6,14,7,13}},
{10,137,{1,4,2,5,5,10,6,11,3,9,4,8,9,3,10,2,16,12,17,11,14,7,15,8,6,15,7,16,20,18,1,17,18,13,19,14,12,19,13,20}},
{10,138,{4,2,5,1,10,6,11,5,8,3,9,4,2,9,3,10,16,12,17,11,7,15,8,14,15,7,16,6,20,18,1,17,18,13,19,14,12,19,13,20}},
{10,139,{4,2,5,1,10,4,11,3,11,19,12,18,5,15,6,14,7,17,8,16,15,7,16,6,17,9,18,8,13,1,14,20,19,13,20,12,2,10,3,9}},
{10,140,{1,4,2,5,3,10,4,11,11,19,12,18,14,5,15,6,6,17,7,18,16,7,17,8,8,15,9,16,13,1,14,20,19,13,20,12,9,2,10,3}},
{10,141,{1,4,2,5,3,10,4,11,14,6,15,5,16,8,17,7,6,16,7,15,17,20,18,1,11,18,12,19,19,12,20,13,8,14,9,13,9,2,10,3}},
{10,142,{4,2,5,1,10,4,11,3,11,19,12,18,5,15,6,14,17,7,18,6,7,17,8,16,15,9,16,8,13,1,14,20,19,13,20,12,2,10,3,9}},
{10,143,{4,2,5,1,10,4,11,3,5,14,6,15,7,16,8,17,15,6,16,7,17,20,18,1,11,18,12,19,19,12,20,13,13,8,14,9,2,10,3,9}},
{10,144,{1,4,2,5,3,10,4,11,18,11,19,12,5,15,6,14,17,7,18,6,7,17,8,16,15,9,16,8,20,13,1,14,12,19,13,20,9,2,10,3}},
{10,145,{4,2,5,1,5,12,6,13,8,3,9,4,2,9,3,10,11,16,12,17,17,10,18,11,7,18,8,19,13,20,14,1,19,14,20,15,15,6,16,7}},
{10,146,{4,2,5,1,5,18,6,19,8,3,9,4,2,9,3,10,11,17,12,16,7,12,8,13,15,6,16,7,17,11,18,10,13,1,14,20,19,15,20,14}},
{10,147,{4,2,5,1,10,4,11,3,5,14,6,15,15,20,16,1,12,7,13,8,8,18,9,17,19,7,20,6,16,12,17,11,18,13,19,14,2,10,3,9}},
{10,148,{4,2,5,1,8,4,9,3,5,12,6,13,13,18,14,19,9,16,10,17,17,10,18,11,15,20,16,1,19,14,20,15,11,6,12,7,2,8,3,7}},
{10,149,{1,4,2,5,3,8,4,9,12,6,13,5,13,18,14,19,9,16,10,17,17,10,18,11,15,20,16,1,19,14,20,15,6,12,7,11,7,2,8,3}},
{10,150,{4,2,5,1,8,4,9,3,5,12,6,13,9,17,10,16,17,1,18,20,13,19,14,18,19,15,20,14,15,11,16,10,11,6,12,7,2,8,3,7}},
{10,151,{1,4,2,5,3,8,4,9,12,6,13,5,9,17,10,16,17,1,18,20,13,19,14,18,19,15,20,14,15,11,16,10,6,12,7,11,7,2,8,3}},
{10,152,{1,6,2,7,3,8,4,9,5,12,6,13,18,13,19,14,16,9,17,10,10,17,11,18,20,15,1,16,14,19,15,20,7,2,8,3,11,4,12,5}},
{10,153,{4,2,5,1,8,4,9,3,12,6,13,5,13,18,14,19,9,16,10,17,17,10,18,11,15,20,16,1,19,14,20,15,6,12,7,11,2,8,3,7}},
{10,154,{4,2,5,1,8,4,9,3,12,6,13,5,9,17,10,16,17,1,18,20,13,19,14,18,19,15,20,14,15,11,16,10,6,12,7,11,2,8,3,7}},
{10,155,{1,6,2,7,7,16,8,17,3,11,4,10,15,3,16,2,5,15,6,14,11,5,12,4,9,18,10,19,20,14,1,13,17,8,18,9,12,20,13,19}},
{10,156,{4,2,5,1,12,4,13,3,7,14,8,15,18,9,19,10,6,19,7,20,16,5,17,6,10,17,11,18,13,8,14,9,20,15,1,16,2,12,3,11}},
{10,157,{1,6,2,7,10,4,11,3,16,11,17,12,7,15,8,14,15,9,16,8,13,1,14,20,19,13,20,12,18,6,19,5,2,10,3,9,4,18,5,17}},
{10,158,{6,2,7,1,3,10,4,11,14,8,15,7,8,14,9,13,9,2,10,3,11,18,12,19,5,17,6,16,17,5,18,4,20,16,1,15,19,12,20,13}},
{10,159,{1,6,2,7,3,9,4,8,18,11,19,12,20,13,1,14,15,2,16,3,17,5,18,4,12,19,13,20,5,10,6,11,7,15,8,14,9,16,10,17}},
{10,160,{4,2,5,1,12,4,13,3,7,14,8,15,9,19,10,18,19,7,20,6,5,17,6,16,17,11,18,10,13,8,14,9,15,1,16,20,2,12,3,11}},
{10,161,{1,4,2,5,3,12,4,13,7,14,8,15,18,9,19,10,6,19,7,20,16,5,17,6,10,17,11,18,13,8,14,9,20,15,1,16,11,2,12,3}},
{10,162,{6,2,7,1,16,10,17,9,10,3,11,4,2,15,3,16,14,5,15,6,18,8,19,7,4,11,5,12,8,18,9,17,13,20,14,1,19,12,20,13}},
{10,163,{6,2,7,1,8,3,9,4,13,19,14,18,11,1,12,20,19,13,20,12,2,16,3,15,4,17,5,18,10,6,11,5,14,7,15,8,16,10,17,9}},
{10,164,{6,2,7,1,14,7,15,8,15,2,16,3,5,12,6,13,9,19,10,18,3,11,4,10,17,5,18,4,19,9,20,8,11,16,12,17,20,13,1,14}},
{10,165,{1,6,2,7,7,18,8,19,3,9,4,8,17,3,18,2,5,15,6,14,9,17,10,16,15,11,16,10,11,5,12,4,20,14,1,13,12,20,13,19}},
