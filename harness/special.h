// Multiples of the generators with unusual coordinate words (written by tools/gen_special.cpp;
// only a choice of inputs, nothing is compared with it).
#pragma once
namespace special {
static const unsigned kSm2[] = {907,1141,2198,2290,2361,3135,3412,4108,5518,8756,9026,9935,10752,11153,11646,12563,12982,13784,13785,14394,14827,15541,17883,17931,19242,20324,21293,23755,24045,26408,26481,26602,27564,27751,29258,30543,30754,31406,31878,33271,34668,34682,36504,39069,42658,42671,43062,43173,43331,45100,48934,50030,50972,51536,53627,53910,54213,54786,55352,57989,58105,58471,58967,58985,59043,60190,62825,62832,63627,66142,67885,68251,68296,69906,70344,71196,72278,72345,72951,73434,74294,75966,77422,77840,79038,79163,79397,80217,83814,84295,84493,85187,87089,87732,87943,88203,89376,89718,94436,94746,95183,96924,99850,99969,100616,101973,103838,104383,105774,106328,107457,107848,109818,109995,112311,112911,113081,113978,114521,114814,121879,124212,127701,129160,131020,131866,133502,136574,136948,138073,140750,141209,145999,147350,149172,149969,154430,155787,155885,156084,157767,158642,159144,159251,167755,167998,168247,170339,172354,173685,174050,175342,178201,183210,184086,188506,189576,190174,193197,194120,194451,196275,196360,198925,200643,202794,202797,204917,205479,205666,211332,212603,212837,213193,215514,216826,216972,219505,220473,225701,227553,229946,232729,233070,233939,237209,239658,240721,245774,246690,252436,254094,254418,256949,258286,263694,263875,267965,271082,277207,280342,289093,289595,290384,292648,294163,296853,302857,308793,311837,318265,319517,321566,324589,325547,328168,330361,330506,330950,333529,334920,337349,346724,352790,354019,360747,364935,378816,390292,393404,405560,417780,432641,436836,441148,448861,467742,476130,492570,505105,572008,2119497,6720796,13047929,13548710,14360977};
static const unsigned kSm9G1[] = {905,1006,2412,2575,4565,5000,5106,5346,5929,6054,7321,8525,8653,9355,9995,13361,14615,15360,16209,16629,16723,17783,18029,18404,18698,20643,20669,21956,22202,23228,23349,23883,23919,25131,26647,27161,28832,29494,29675,30004,30816,32203,32377,33279,34602,36099,37940,43143,44284,44649,45947,45968,48209,48903,49520,51987,52841,53750,55003,57699,58781,60008,60714,62024,62687,63758,66598,66614,67295,67370,70702,72035,73178,73837,74032,74435,76967,80283,80634,81972,82438,82962,85021,87631,88598,89125,91603,91819,92633,92640,95698,99126,101504,102121,102196,102730,102879,105169,106637,107828,109317,110608,111746,112281,114726,115114,116783,118877,119271,119382,120069,120594,121210,121530,123767,124604,124920,124974,125558,127643,128481,129410,129945,130181,132336,136620,137558,139291,140423,140546,141162,141868,144184,146118,147171,148112,148364,150433,151496,155753,158997,159505,160071,161459,163187,163995,165235,165735,172893,175804,176456,177780,178824,180965,180976,184534,185173,187813,188498,191579,193792,195088,195987,196224,196641,196822,197782,198049,198067,198941,199718,201261,205961,207080,210687,211856,213025,213054,214817,215613,217104,219384,219425,220027,221131,234088,237578,240129,243701,245537,246865,247761,250904,257311,259554,262721,263018,271926,273131,274235,278118,280534,283928,288327,288579,289451,303174,308075,311641,315641,317339,321319,323772,327532,330005,338519,340432,347375,352645,372093,393232,403944,404436,408563,428746,473178,474408,596700,1164173,3080986,4365236,5330857,5581362,9141024,10878022,14466619,15842156};
static const unsigned kSm9G2[] = {7442,7753,7897,8018,9033,12163,12908,13087,13712,14225,20226,21619,22330,23755,24653,24695,24965,26582,28388,28788,30902,30974,34320,34643,35256,35352,36312,37198,37793,38072,38983,39572,39971,40177,41584,42895,42897,42999,43592,44158,47298,47396,47397,47729,48709,48987,48990,52383,53279,54011,54107,54381,56439,56542,57141,57396,58748,60201,63776,64721,64816,65748,66074,67917,68956,69046,69363,72308,73397,74392,75097,77079,80506,80577,80787,84197,84432,87015,87033,87065,87245,95922,97705,97924,98322,98793,99092,99876,100372,101523,102428,103322,104291,104787,106111,106527,109567,110594,114109,114434,116409,116648,117037,120603,125817,128719,129516,130969,131700,134216,135385,138957,143087,143447,146485,150413,154622,155719,160359,164664,164974,170750,171741,175723,176749,180192,182619,183410,190392,193961,196626,197561,199088,202498,207429,209060,213301,219021,221278,222361,224808,226091,227387,237225,243784,244962,256787,292037,305492,335920,351836,405201,431570,1443995,1538269,2951553,3220853,3540505,3854595};
static const unsigned kSm9GT[] = {827,2108,2744,3182,3295,3455,3477,3490,3757,3896,4133,4413,4916,4966,5153,5596,6409,7226,7586,7726,7814,8320,8513,9005,9595,9917,10061,10523,10639,11203,11965,12583,12984,13143,13592,14088,14108,14456,14628,14704,15299,16170,16608,16671,18584,19522,19880,19888,21183,22018,22485,23007,23245,23733,24170,25091,25117,25118,25987,26588,26962,27763,28689,28839,28933,30331,30683,31298,31300,31374,31427,31848,32138,32492,32698,32830,33321,33730,34869,35236,35930,35972,36927,37403,37942,38006,38139,38493,38520,38831,39249,39501,39922,41512,41866,41934,42825,43178,43757,43814,44839,45052,45279,45331,46281,46842,47233,47630,48790,48817,49463,50009,50638,51126,51157,53158,53803,53911,57337,57475,58533,59265,60090,61195,63911,65225,67554,68631,68740,70011,70361,70910,72374,73747,74078,74892,75187,75286,75354,76104,76244,76459,77743,78101,78445,79465,79502,80922,80958,80964,81048,82627,83524,85174,86762,87075,89952,92099,93018,97016,97916,98091,98113,98518,98634,100490,100612,100646,103413,106721,107058,108657,108885,108938,109558,110803,112570,113376,114715,117758,120502,122353,124454,124650,124975,126465,127056,127094,127535,130792,133563,133642,134255,134536,134606,136403,136950,140512,142761,145152,150091,152700,157537,157586,163680,165435,170304,179979,184845,186933,190987,194616,195798,197333,199335,202611,207896,215786,222253,238636,248588,268068,274100,283016,320586,326334,360376,383222,386354,465867,877961,1503141};
template <size_t N, class R> inline unsigned pick(const unsigned (&t)[N], R& r) { return t[r.below(N)]; }
} // namespace special
