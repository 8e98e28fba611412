"""Unvignetted fraction against field angle (VignettingFunc_v3.3, step 0.02 deg), reference copy."""

STEP = 0.02
FRAC = [0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623822, 0.623759, 0.623632, 0.623442, 0.623316, 0.623, 0.622494, 0.622367, 0.621861, 0.621671, 0.621292, 0.621039, 0.620659, 0.620216, 0.619963, 0.619394, 0.619204, 0.618635, 0.618319, 0.618066, 0.617496, 0.617117, 0.616737, 0.616168, 0.615535, 0.61484, 0.614207, 0.613385, 0.612436, 0.611614, 0.610602, 0.609716, 0.608957, 0.608071, 0.606996, 0.605668, 0.604972, 0.60377, 0.602758, 0.601177, 0.599595, 0.59814, 0.595673, 0.594282, 0.592447, 0.590613, 0.588526, 0.586312, 0.584287, 0.582137, 0.580113, 0.578025, 0.576064, 0.573344, 0.570561, 0.56373, 0.545322, 0.521412, 0.492757, 0.460624, 0.429565, 0.404959, 0.383073, 0.35619, 0.317161, 0.279777, 0.241824, 0.201974]
