# per property: (how it is decided / against what oracle, quick seconds)
O = {
"C01": ("`subtract` runs on two images whose pixels, backgrounds, noise levels, zero points and PSF stamps are atoms; the oracle evaluates the published formula in exact Fourier arithmetic from the same atoms and asserts equality pixel by pixel, for every option combination and optimiser answer (also failure).", 15),
"C02": ("as C01 for P and S_corr; the variance maps, kernels kr/kn and the recentring by P's centroid are recomputed by the oracle; equality up to one constant factor shared by all pixels.", 45),
"C03": ("every mask bit is a boolean atom; assertion `mask_in -> mask_out` for each pixel, with an arbitrary whole-pixel registration that moves pixels and mask together and an arbitrary footprint; all worker counts.", 10),
"C04": ("two-run (relational) check: two copies of the inputs that differ in fresh atoms under the mask; all products asserted equal. Background, cosmic-ray finder, interpolation and statistics are keyed by the *unmasked* content, so any leak shows as a different key.", 12),
"C05": ("every pair of shapes within the bound; assertion: ValueError exactly when the shapes differ, and products (mask included) have the common shape otherwise.", 6),
"C06": ("coadd runs on atoms; oracle evaluates R_hat, P_hat, the recentring and the weights exactly; sequential and parallel.", 15),
"C07": ("the scheduler's choice of which worker finishes next is a symbolic choice; R, P, mask of every schedule and worker count asserted equal to those of the sequential run.", 8),
"C08": ("photometry m_ij = t_j + z_i with t, z atoms, catalogue order a choice; zero point differences and mean magnitudes asserted equal to the atoms through the exact normal equations of lsqr.", 5),
"C09": ("positions and radius are atoms; the oracle states mutual nearest neighbourhood as a formula over squared distances and z3 compares it with the identifiers assigned on each path.", 25),
"C10": ("eigenvalues are non-negative atoms; the number kept on each path is asserted to be the least k with discarded share <= inf_loss.", 6),
"C11": ("stamps symbolic, eigen-system prescribed; basis elements asserted equal to the combination, polynomial fits asserted to receive that eigenvector's entries and the (row, col) positions; smoothing checked at the filter's boundary.", 8),
"C12": ("basis pixels symbolic; PSF at every position compared with the sum of field value times element, divided by its sum.", 6),
"C13": ("every sequence of operations within the bound, as symbolic choices, then products compared with those of a fresh image with the same settings (two-run).", 12),
"C14": ("pixels, gain and header symbolic; equality of every pixel with gain * input[crop]; input kinds enumerated by choice inside the path exploration; caller's array asserted unchanged.", 8),
"C15": ("mask bit of each pixel asserted equivalent to a formula over the input's NaN bits, mask bits, extension pixels and threshold; growth compared with 7-step dilation; own-mask and off-shape masks included.", 12),
"C16": ("pixels free to be zero; the bounding box of the non-empty pixels is stated as a formula; trimmed pixels, mask and gain compared on every path.", 8),
"C17": ("pixels/NaN/mask/cosmic-ray map/background/interpolated values symbolic; good pixels asserted equal to the input, bad ones to the interpolated value, no NaN left; second access equal; the image's own data and mask unchanged.", 6),
"C18": ("outcome of each extraction attempt is a choice, sizes/flux/flags of sources symbolic; selected catalogue compared with a formula for the cuts.", 15),
"C19": ("positions by choice, pixels symbolic; each stamp times its sum compared with the pixels of the interpolated image around the source (padding included), list of sources and stamps in step.", 40),
"C20": ("exception point and failing removals are choices (fault schedule); afterwards the modelled file system is asserted to hold nothing of this image and everything of the other.", 10),
"C21": ("lengths and chunk counts by symbolic choice; partition, order and balance asserted.", 2),
"C22": ("pixels, mean and threshold symbolic; connected groups recomputed by the oracle on the path condition; one detection per group, at its flux-weighted centre, value the group's peak.", 10),
"C23": ("store, read back through the modelled FITS layer, compare pixels and masks for all kinds; caller's arrays unchanged.", 6),
"C24": ("positions and weights symbolic; every pixel compared with the sum of weights at it.", 4),
"C25": ("renderings compared pixel by pixel with the closed formula (Gaussian by exact widths passed to the model evaluation, Airy, Sersic), convolution with the direct sum, products with the Cartesian product.", 10),
"C26": ("the generator's draws are symbolic; image composition (sources + bias + noise of the stated standard deviation), same seed same image whatever happened before, stored file equal.", 12),
"C27": ("numbers of components/axes by choice; which data is drawn on which axes is read off the recorded matplotlib calls; names for the dispatch are symbolic strings of bounded length.", 12),
"C28": ("s component, normalisation image, PSF norm compared with the formulae in exact Fourier arithmetic.", 10),
"C29": ("two-run: operation with align=True against the operation on images moved beforehand by the same registration; all products equal; failure of the registration at any image propagates without half-done products.", 15),
"C30": ("two-run: operation on raw inputs of every pair of kinds against the operation on images built by hand from them; also the caller's list and arrays unchanged.", 12),
"C31": ("the fitter's answer is a fresh symbolic tuple per stamp; the image's PSF parameters asserted to be their clipped mean, rendering and caching compared, number of fits equals number of stars.", 25),
"C32": ("two-run: the operation, any sequence of other operations, the operation again: equal products and inputs unchanged (pixels, mask, settings, files).", 50),
"C33": ("the cost function that the code hands to the optimiser is captured at the scipy boundary and evaluated at a symbolic trial beta and shift; compared with the sum of absolute residuals of an independently evaluated difference image over the unmasked interior.", 40),
"C34": ("the arguments of the estimate are taken at the sep boundary and compared, pixel by pixel and mask bit by mask bit, with gain times the input and the image's mask; the estimate is an uninterpreted function of the unmasked content, so a second image with other values under the mask must get the same answer; sum and mask identities asserted on the products.", 5),
}
MISSED = ("S36",)
