HOW = {
'C01': 'Every public request (`measure`, `measure_sensor_scan`, construction, limit setters) runs with symbolic sweep ranges, limits and fixed voltages. Oracle: an independent predicate `inside(request)` over the same symbols; the request must be refused with ValueError exactly when the predicate is false, and a plug-in must never have been called before the refusal.',
'C02': 'The simulation runs with stub plug-ins whose outputs are fresh symbolic arrays and which log their inputs. Oracle: the log order and that each stage received exactly the symbolic array the previous one returned, with the ranges of the request; returned arrays are those of the last stages.',
'C03': 'Objects are mutated (symbolic values) after being assigned, after being read and between measurements; the assertions say that the simulation, its inputs and earlier metadata see or do not see the mutation as documented.',
'C04': 'Affine occupation distortions with fresh symbolic noise request structure through `generate_csd`; the oracle composes ideal structure and earlier distortions with the noise logged in this measurement. The ideal CSD is an uninterpreted function (Ackermann constraints for equal arguments).',
'C05': 'The full `ideal_csd_geometric` pipeline runs with symbolic ranges; the oracle is either the same pixel computed alone (pixelwise reference), the same window swept in another direction, or a 1D scan along a row of the 2D window.',
'C06': 'Symbolic transition offsets/kinks and pixel positions; the oracle counts the transitions below each pixel and sums an independent statement of the smooth split; bounds 0 <= n1 <= n1+n2 by symbolic anchor tables.',
'C07': '1D: symbolic integer totals, the label of each pixel is compared with the definition. 2D: symbolic line offsets and window, every label is justified by a curve point inside the pixel cell (or at the border pixel) and every curve point in the window lies in a labelled cell.',
'C08': 'x is symbolic, the curve is compared with the piecewise definition: lead lines, Bezier segments obtained from the table nodes, periodic shift; continuity at the joints and pointwise independence are separate assertions.',
'C09': 'Symbolic parameter rows; the table is compared with the recurrence written independently, with intersection conditions (each outer anchor lies on the two lead lines) and with the TCT curve.',
'C10': 'Symbolic lever-arms, offset, occupations and ranges; each pixel equals alpha_dot.n + alpha_gate.v(pixel) + offset with v(pixel) from the linear sweep.',
'C11': 'Symbolic peak parameters and potentials; response equals the sum of the documented peak shapes, maximum at mu0, symmetric, bounded by offset and height.',
'C12': 'As C10 for the three stacked potentials and any combination of swept/fixed/unset gates; both-kinds-swept must be refused.',
'C13': 'Barrier, peak and rise functions are uninterpreted non-negative functions; the response equals the series-conductance formula at every pixel, 0 when a part is 0, and at most the smallest part; the final rise is placed at the working point of the scan.',
'C14': 'Symbolic potentials and thresholds; conductive area and peak labels are compared with their definition (nearest pixel of a row, border rule, ascending numbering).',
'C15': 'The working point is observed through the rise offset and the deformation distance; the assertion multiplies it back with the barrier lever-arms and must get the thresholds.',
'C16': 'exp/log are symbolic functions with monotonicity and inverse facts; inverse(glf(x)) = x, bounds, monotonicity, thresholds at the requested percentages, equality of single and multi-step with one step.',
'C17': 'Deformation formulas over symbolic distances (sqrt, tan); in scans the deformation is an uninterpreted function of the distance and the assertion checks distance, centre shift, restoration of mu0.',
'C18': 'The generator is a stub returning arbitrary values of its support; all samples lie in the (narrowed) range, the narrowed range has the requested width inside the total range, last_sample is the last returned value.',
'C19': 'The generator returns arbitrary values; output - input is strength times them (one draw per pixel), strength 0 is neutral, inputs unchanged.',
'C20': 'Every history of drawn segment lengths up to the bound is symbolic; the disturbed pixels must be the bursts of that history along the sweep, with one magnitude per burst.',
'C21': 'Every history of block lengths and jump distances; the value at a displaced pixel must be the structure at the displaced voltage (the structure is the identity on voltages), frozen repetition re-uses the history.',
'C22': 'The kernel handed to the convolution and the converted width are compared with their definition for symbolic widths and ranges; output of the convolution for fixed widths over symbolic data.',
'C23': 'Each helper against its geometric definition (dot products, norms, orthogonality), for arrays and single points.',
'C24': 'Limits, symmetry, monotonicity and normalisation of the profiles; the filter kernel is non-negative, symmetric, of sum 1 and a constant image stays constant.',
'C25': 'After re-centring with symbolic target the first pixel potential of a new measurement equals the target, repeated re-centring is idempotent, lever-arms untouched.',
'C26': 'The random generator is a stub with symbolic draws; every produced configuration is checked against the documented ranges and the admissibility conditions of the classes it builds.',
'C27': 'Two-safety: two equally configured objects run on generators with the same symbolic stream while every other source of randomness (numpy functions, generators created inside, other objects) returns independent symbols; the results are asserted equal term by term, so a value from anywhere else gives a counterexample.',
'C28': 'pyplot is replaced by a recorder (figure, axes and colour bar in one); image, curve, tick positions and the numbers in the tick labels (formatted symbolic values are read back as terms) are compared with the interpolated ranges. The replay draws with matplotlib (Agg) and reads the figure back.',
}
