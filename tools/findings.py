"""Writes known_findings.json (python3 tools/findings.py)"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [
 ("C06","57f1e18","gradient of a combination of bases returned only part of its members"),
 ("C04","be2406e","antiderivative of the centred linear basis ignored the mean"),
 ("C06","d1d815d","tensor product of one basis with itself fitted both factors on the last coordinate"),
 ("C12","4bea810","midpoint inversion used wrong lags of the correlations"),
 ("C13","a03f806","second kind Simpson inversion had the wrong sign in its implicit term"),
 ("C16","4efc6f2","stabilised evolution sliced the solution along the wrong axis"),
 ("C16","5f32980","trapezoidal evolution left out the end point of the memory integral"),
 ("C16","98e8004","rectangular evolution dropped the last cell of the memory integral"),
 ("C24","5ee2371","Laplace transform of the kernel read a coordinate the kernel does not have"),
 ("C18","ef445c7","loading a model did not restore all that was saved"),
 ("C25","450eac6","gram matrix of the kernel was not projected on the range"),
 ("C07","b6accd9","direct autocorrelation of several components computed only the diagonal pairs"),
 ("C19","1ff90f9","integrator without a model or with a truncated kernel failed"),
 ("C10","7a68ba4","time derivative of the hybrid memory vector was summed over time"),
 ("C14","73a930f","force returned with the noise decomposition lost its coordinates"),
 ("C14","683879f","trapezoidal memory counted the last kernel value with full weight"),
 ("C22","78a9556","point search in tetrahedra failed"),
 ("C22","a860d72","gradient of finite elements in several dimensions had its coordinates mixed up"),
 ("C22","a1b0e9a","element search on a line modified the points and picked wrong elements for unordered or refined meshes"),
 ("C18","fc6fa66","saving the correlations failed when those of the derivatives are not computed"),
 ("C18","a7f41ac","prefix was ignored in the names of the saved files"),
 ("C18","16b63fd","a model loaded from a file could not evaluate its kernel"),
 ("C18","ff53e58","saving failed when gram matrix or mass have another number of basis functions than the kernel"),
 ("C17","eaa0cc8","kernel of the hybrid model in several dimensions had the wrong number of functions"),
 ("C21","1e9ad87","prony fit failed when asked to keep as many terms as there are singular values"),
 ("C21","c86c48d","a prony series could not be evaluated at a single time"),
 ("C26","54e0c4d","flux of the Volterra equation used wrong lags, left out the last kernel value and transposed the drift"),
 ("C08","72ed1a6","variance, skewness and kurtosis of several trajectories were those of the first one"),
 ("C08","635a50c","number of lags was counted in absolute time, wrong for trajectories that do not start at zero"),
 ("C21","184f3b0","prony fit failed when an eigenvalue is negative"),
 ("C22","613f6a3","element search failed for fewer than five elements and silently picked a wrong element for elongated ones"),
 ("C27","ceea7c8","free energy used one cell less than asked for"),
 ("C27","0583ae0","the smallest position was left out of the free energy and its averages"),
 ("C20","0c01e94","noise shorter than the filter was convolved with the tail of the filter only"),
 ("C27","9110b3e","free energy used automatic bins whatever rule was asked for"),
]
out = [{"status":"fixed","property":p,"commit":c,"what":w,"line":"fixed: property=%s %s %s"%(p,c,w)} for p,c,w in F]
json.dump(out, open(os.path.join(HERE,"known_findings.json"),"w"), indent=1)
