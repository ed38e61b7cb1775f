SHIM = "Sage, scipy and the random source are not installed here and are replaced by jy/sageshim.py (exact; nondeterminism under the checker's control); what that stand-in lacks gives no verdict. "
T['C18'] = ("explicit-state exploration of all promotion sequences of a GRF goal on the real code, judged at every point of a grid after every step", "Exhaustive over the stated atoms, points and promotion sequences. " + SHIM)
T['C19'] = ("explicit enumeration of all bounded polynomial sets x environment outcomes (random draws, isolating intervals) on the real projection and lifting code", "Exact cells in one variable, cells found by a rational grid in two and three. " + SHIM)
T['C20'] = ("explicit enumeration of all bounded hypothesis lists, points, environment schedules and collections of bad subsets on the real code", "Exhaustive over the stated lists; every optimum is found by brute force. " + SHIM)
T['C21'] = ("explicit-state exploration of whole GRF runs, sessions of several sequents and interactive command sequences on the real code", "All sequents, sessions and command sequences within the stated bounds under the stated environment schedules. " + SHIM)
T['C22'] = ("explicit enumeration of all bounded texts of the input grammar through the real parser and file front end", "Exhaustive over terms to depth 2. " + SHIM)
