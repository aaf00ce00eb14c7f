prop("C01", "Difference image D follows the proper-subtraction formula",
 "For any pair of equally sized images, `subtract` returns the difference image D given by the proper image subtraction formula of Zackay, Ofek & Gal-Yam (2016): in Fourier space, the new image filtered with the reference PSF minus beta times the reference image filtered with the new PSF, divided by sqrt(var_n^2 |P_r|^2 + beta^2 var_r^2 |P_n|^2), each PSF's own centre removed. beta and the sub-pixel shift are the ones the optimiser returned when it succeeded, and the ratio of zero points and no shift otherwise or when they are not asked for. It holds for every pixel content, PSF (also one with vanishing or purely imaginary frequencies), noise level, zero point (any ratio) and combination of the beta/shift/iterative/fitted_psf options, square or not.",
 ["inputs", "configurations"],
 "all pixel values, PSFs, noise levels, zero points, optimiser results and option combinations",
 "tests look at D for a handful of simulated images and only check shapes or coarse statistics; the formula must hold for every image",
 [OPS], [("Fourier-space difference and its normalisation", OPS + ":subtract")],
 note="Images up to 2x4 / 4x4 pixels.")
prop("C02", "Subtraction PSF P and score S_corr follow the published formulae",
 "`subtract` returns as P the inverse transform of P_r P_n beta / (F_D sqrt(norm)), with F_D = beta/sqrt(var_n^2 + beta^2 var_r^2) and norm the denominator of D squared. S_corr is the cross-correlation of D with P recentred on P's centre, scaled by F_D, divided by the square root of the source-noise variance built from both images' pixels (masked pixels counting as zero) and the kernels kr and kn, up to the library's constant transform normalisation. Both hold for every option combination and any zero-point ratio.",
 ["inputs", "configurations"],
 "all pixels, masks, noise levels, zero points, optimiser results",
 "tests never compare P or S_corr with an independent evaluation of the formula",
 [OPS], [("P_hat, kernels kr/kn, variance maps and S_corr", OPS + ":subtract")],
 note="Images up to 2x4 pixels.")
prop("C03", "No bad pixel is lost in subtraction or coaddition",
 "Every pixel masked in an input image is masked in the mask returned by `subtract` and by `coadd`, whatever the masks, the number of images and the number of workers. When the images are aligned, masked pixels move with the image they belong to, and the pixels of the output that the moved image does not cover are masked too.",
 ["inputs", "configurations", "schedules"],
 "all masks, alignment shifts, numbers of images and workers",
 "tests use images with few or no masked pixels and never compare the masks pixel by pixel after alignment",
 [OPS, U, SI], [("mask_or of the input masks", OPS + ":subtract, coadd, process_chunk_joblib"), ("registration with mask propagation", OPS + ":subtract; " + U + ":_align_for_coadd")])
prop("C04", "Pixels under the mask never influence any product",
 "Two runs whose input images differ only in the values stored below the mask (any number, NaN, or a saturated value) give the same D, P, S_corr and mask from `subtract` and the same R, P and mask from `coadd`. The cost function handed to the optimiser is blind to the masked pixels too, for every beta/shift/iterative option.",
 ["inputs", "configurations"],
 "all pairs of values below the mask, masked positions and option combinations",
 "needs two runs that differ only under the mask; no test makes such a pair",
 [OPS, SI], [("masked background, fill before cosmic-ray search, interpolation over masked pixels", SI + ":interped, _bkg"), ("masked cost and filled(0) in the variance maps", OPS + ":subtract")])
prop("C05", "Images of different size are refused, never broadcast together",
 "`subtract` and `coadd` without alignment raise ValueError when the images differ in size along any axis, even when the arrays could be broadcast against each other. Images of equal size are accepted and every product has exactly their size.",
 ["inputs", "configurations"],
 "all pairs of shapes",
 "one test checks a single mismatched pair",
 [OPS], [("shape comparison", OPS + ":subtract"), ("accumulation into arrays of the common shape", OPS + ":coadd")])
prop("C06", "Coadd R and its PSF follow the proper-coaddition formulae",
 "`coadd` returns R with R_hat = sum_j (F_j/var_j^2) conj(P_j) M_j / sqrt(sum_j (F_j/var_j)^2 |P_j|^2) (F_j the zero points, M_j the background-subtracted interpolated images, var_j the noise levels; variable PSFs enter term by term of their decomposition), up to the library's constant transform normalisation and with each matched filter recentred by its PSF's centre. The returned PSF is the inverse transform of that square root recentred on the stamp, normalised to unit sum. Every image carries its measured zero point afterwards, and one worker or many give these same products.",
 ["inputs", "configurations"],
 "all pixels, PSFs, zero points and noise levels, constant or variable PSF",
 "tests only check that arrays of the right type come out",
 [OPS, SI], [("accumulation of matched-filtered images and squared PSFs", OPS + ":coadd, process_chunk_joblib"), ("S component of one image", SI + ":SingleImage.s_hat_comp, psf_hat_sqnorm")])
prop("C07", "The coadd does not depend on the number of workers nor their order",
 "For any list of images, `coadd` returns the same R, PSF and mask for every `n_procs` (1, fewer or more than the number of images) and for every order in which the workers run, also when a worker is interrupted anywhere while others go on. It never fails because of the number of workers, nor when an image is listed more than once.",
 ["schedules", "configurations", "inputs"],
 "all numbers of images and workers, completion orders and pixel contents",
 "tests run one or two worker counts on one stack and do not compare results across them",
 [OPS, U], [("chunked accumulation", OPS + ":coadd, process_chunk_joblib"), ("list splitting", U + ":chunk_it")])
prop("C08", "Relative zero points of consistent photometry are recovered exactly",
 "When the catalogues of the images are consistent (each common source, matched within two pixels, has in image i the magnitude that is its true magnitude plus an offset z_i), `transparency` returns zero points whose differences equal the z_i differences and mean magnitudes that reproduce every source, for any number of images. Sources missing from some image take no part; catalogue order, unmatched extra sources, a separate master and earlier calls on the same images do not matter, and the images' catalogues keep every source. With nothing in common it returns unit zero points.",
 ["inputs", "histories", "configurations"],
 "all magnitudes and offsets, number of images and sources, catalogue orders, successive calls",
 "tests call transparency on a few simulated pairs and compare loosely",
 [U], [("matching, magnitude vector, design matrix, least squares", U + ":transparency")])
prop("C09", "Cross-matching pairs exactly the mutual nearest neighbours",
 "Matching two source catalogues assigns to a source of the second the identifier of a source of the first if and only if they are each other's nearest neighbour within the radius; no identifier is used twice and the matched flag tells exactly the matched ones (the source with identifier 0 included). `crossmatch` returns the index and distance of the nearest neighbour within the radius, and infinity and the catalogue size when there is none.",
 ["inputs"],
 "all source positions and radii",
 "tests match one catalogue with a shuffled copy of itself",
 [U], [("two-way nearest-neighbour query", U + ":_matching, crossmatch")],
 note="Catalogues up to 3 sources (2x2 in the plane, 3 on a line).")
prop("C21", "Splitting a list into chunks keeps every element exactly once",
 "Splitting a list of n elements into k chunks yields every element exactly once, in at most k chunks, none of them empty, whose sizes differ by at most one; each chunk is a run of consecutive elements, in their order.",
 ["inputs"],
 "all list lengths and chunk counts",
 "tests check the flattened result for a few lengths",
 [U], [("integer chunk boundaries", U + ":chunk_it")])
prop("C14", "Image pixels are gain times the cropped input, for every source",
 "Building a SingleImage from an ndarray, masked array, HDU, HDU list or FITS file yields exactly gain times the input pixels inside the crop window, for any crop of zero or more pixels on each side. The gain is the explicit one, else the header's, else one; the caller's array is not modified and no valid pixel gets masked.",
 ["inputs", "configurations"],
 "all pixel values, gains, crops, input kinds, with the mask guessed, given or absent",
 "tests build images of one size with one or two crops and only check types or shapes",
 [SI], [("ingestion of the input, gain and crop", SI + ":SingleImage.__init__, data.setter")],
 note="Images up to 4x3 pixels in quick.")
prop("C10", "The PSF basis keeps just enough components for the information loss asked",
 "The Karhunen-Loeve basis of an image keeps the smallest number of components whose discarded share of the total eigenvalue does not exceed `inf_loss`: one component fewer would lose more. There is always at least one component, never more than measured stars, and exactly one coefficient field per component; the loss asked for, directly or through `subtract` and `coadd`, is remembered by the image. It holds for every set of eigenvalues and every inf_loss in [0, 1], for few stars and for the large-catalogue branch above 250 stars.",
 ["inputs", "configurations"],
 "all star stamps (eigenvalues) and information losses",
 "tests use one simulated star field and one or two values of inf_loss, where off-by-one truncations are invisible",
 [SI], [("truncation of the basis", SI + ":_kl_from_stars, _kl_PSF, kl_basis, kl_afields, get_afield_domain")])
prop("C11", "PSF components and coefficient fields describe the same eigenvectors",
 "Basis element i is the combination of the star stamps weighted by the i-th largest eigenvector of the stamps' covariance, and coefficient field i is fitted to the entries of that same eigenvector at those same stars' (row, column) positions. A basis of one component is a single PSF of unit sum with a constant field. The branch for more than 250 stars combines the stamps to unit sum likewise; with `smooth_psf` every element is smoothed and brought to unit sum.",
 ["inputs"],
 "all star stamps, positions and eigen-systems",
 "tests check only the number and the shape of the components",
 [SI], [("covariance, eigenvectors, basis and polynomial fields", SI + ":cov_matrix, kl_basis, kl_afields")])
prop("C12", "The PSF can be evaluated at every position of the image",
 "`get_psf_xy` returns a stamp of unit sum, the basis mixed with the coefficient fields at that position and normalised by the image's normalisation, for every position inside the image including its edges and corners. Asking changes neither the basis nor earlier answers, and a constant PSF is the same everywhere.",
 ["inputs", "histories"],
 "all positions, bases, coefficient fields and query orders",
 "tests ask for the PSF at one central position",
 [SI], [("local PSF from basis and fields", SI + ":get_psf_xy, get_variable_psf")])
prop("C13", "What an image yields depends on its settings, not on earlier calls",
 "Every product of a SingleImage (PSF basis and fields, S component, its transform, normalisation image, stamps, positions, zero-point scaled quantities) depends only on its pixels and current settings (zero point, inf_loss), whatever was asked before, in whatever order and how often. In particular no stale value survives a change of `zp` or of the inf_loss passed to the call, and computing one product does not disturb the pixels or another product.",
 ["histories"],
 "all orders of calls and setting changes up to the stated length, all pixel values",
 "tests call each accessor once on a fresh object",
 [SI], [("lazy caches and their invalidation", SI + ":s_component, s_hat_comp, normal_image, get_variable_psf, stamps_pos, zp")])
prop("C15", "The pixel mask follows the documented rules for every input kind",
 "The pixels bad from the start are those of the given mask array, else those the mask file or first extension flags (its values >= `maskthresh` when its median is 0, <= `maskthresh` otherwise, default 16), else the non-finite ones and a masked array's own (only the latter with `guessmask=False`); with them, every pixel below -50 or above 65000 is masked. Then, seven times, every pixel with at least 3 masked ones in its 3x3 neighbourhood (itself included, mirrored at the borders) is masked too, and nothing else is. A mask is trimmed and cropped with its image and always has its size; more bad pixels never unmask one.",
 ["inputs", "configurations"],
 "all pixel values, masks, thresholds, input kinds and crops",
 "tests only check the mask's type or shape",
 [SI], [("mask ingestion and guessing", SI + ":SingleImage.mask setter, __init__"), ("threshold and growth", SI + ":mask")])
prop("C16", "Border trimming removes exactly the all-zero outer rows and columns",
 "With `borders=True` an image padded with zeros is trimmed to the bounding box of its non-zero pixels, whatever zeros lie inside it; its mask is trimmed alike. The crop, when also asked for, applies after the trimming.",
 ["inputs", "configurations"],
 "all positions of non-zero pixels, crops and masks",
 "tests trim one image with a symmetric border",
 [SI], [("border detection", SI + ":SingleImage.__init__")])
prop("C17", "The interpolated image changes only bad pixels and leaves none",
 "`interped` equals the background-subtracted data at every good pixel; every masked, cosmic-ray-hit or non-finite pixel is replaced by an interpolated, finite value. The pixel data and the mask of the image stay unchanged and the result is the same when asked for again.",
 ["inputs", "histories"],
 "all pixels, masks and cosmic-ray hits",
 "tests only check that an array comes out",
 [SI], [("cosmic-ray detection and interpolation", SI + ":SingleImage.interped")])
prop("C18", "PSF stars are selected by the documented cuts from the best catalogue",
 "The stars used for the PSF come from the deepest catalogue the extraction yields: a failed or too short extraction is retried at other thresholds and the longest catalogue obtained is used, with a ValueError when fewer than two sources exist. Of it are kept the sources without flags whose size and flux lie within the documented percentile cuts, all of them when fewer than five pass, and at most 1800 distinct ones. `update_sources` replaces the selection and re-measures.",
 ["inputs", "histories"],
 "all catalogues and failure patterns of the extraction",
 "tests use one simulated field where the first extraction succeeds",
 [SI], [("source extraction and cuts", SI + ":SingleImage.best_sources, update_sources")])
prop("C19", "Star stamps are faithful normalised cutouts around their own source",
 "The stamp of star i has unit sum and is, up to scale and offset, the cutout of the image around that star's own position in row and column, with pixels beyond the image edges filled; its size and recorded position match it. Rejected stars leave no trace: the surviving stamps, positions and star count stay in step and in catalogue order; with no shape asked for, stamps are the odd squares of at least five pixels that three times the root of the sources' 65th percentile area gives.",
 ["inputs"],
 "all pixels, star positions (edges included) and patterns of rejected stars",
 "tests check counts on one field, with no star near an edge",
 [SI], [("cutting, checking and normalising stamps", SI + ":SingleImage.stamps_pos, db, n_sources")])
prop("C25", "Simulation building blocks have their documented geometry",
 "Mock PSFs have the size asked for, unit sum, no negative or undefined pixel, are centred and mirror symmetric about the array's centre for every size and width, and have the given full widths at half maximum along rows and columns. Airy patterns and Sersic galaxies follow their formulae, are symmetric, finite and cover the array; Cartesian products list every combination exactly once without truncating values; galaxy convolution returns the zero-padded convolution with the galaxy's size.",
 ["inputs", "configurations"],
 "all widths, sizes, indices and coordinate lists",
 "tests compare one or two sizes with loose checks",
 [SIM], [("profiles and products", SIM + ":Psf, astropy_Psf, airy_patron, gal_sersic, cartesian_product, convol_gal_psf_fft")])
prop("C28", "Single-image S component and normalisation follow the coadd algebra",
 "`s_hat_comp` and `s_component` of an image equal zp/var^2 times its interpolated image filtered with its conjugate, recentred PSF (for a variable PSF the sum over components, each on the image weighted by its coefficient field and divided by the normalisation image), and follow a new zero point. `psf_hat_sqnorm` is the sum over components of |PSF_hat|^2 (`p_sqnorm` its inverse transform moved by half a stamp) and `interped_hat` the transform of `interped`. Away from the border the normalisation image is one for a constant PSF and the sum of the fields convolved with the basis otherwise.",
 ["inputs", "configurations"],
 "all pixels, PSFs, coefficient fields, zero points and noise levels",
 "tests only check types and shapes",
 [SI], [("matched filter and normalisation", SI + ":s_hat_comp, s_component, psf_hat_sqnorm, p_sqnorm, interped_hat, normal_image")])

prop("C20", "The star database of an image never outlives its context",
 "Leaving the `with` block of a SingleImage (or calling `_clean`) removes both files of its star database and no other image's (also when both were built from the same source), at whatever point the block ends: before or after measuring, normally, by an exception (which comes through) or by a failure in the middle of measuring the stars. A file that cannot be removed (or is already gone) raises nothing and does not keep the other one, and cleaning again is harmless.",
 ["fault_sequences", "crash_points", "histories"],
 "all points where the block ends, failing removals and orders of two images",
 "tests clean up once after a successful run and do not look at the files",
 [SI], [("context manager and removal of the database files", SI + ":SingleImage.__exit__, _clean, stamps_pos")])
prop("C22", "Detections are the connected pixel groups above the threshold",
 "`find_S_local_maxima` returns one entry for each group of side-connected pixels whose significance (value minus clipped mean, over clipped deviation) exceeds the threshold, and no other: the (column, row) of the group's centre of mass and the significance of the pixel there. It holds whatever the shape of the groups (touching by corners, reaching the border) and leaves the image unchanged; without any such pixel the list is empty.",
 ["inputs"],
 "all pixel values, statistics and thresholds",
 "tests look for one bright source in a simulated image",
 [U], [("labelling and centres of mass", U + ":find_S_local_maxima")],
 note="Images up to 5x4 with five symbolic pixels.")
prop("C23", "Stored images keep their pixels and their mask",
 "`store_img` stores the (real part of the) pixels it is given, without changing the caller's array or mask; for a masked array the first extension holds one for each bad pixel and zero for each good one. It returns the HDU or HDU list, or writes it to the path given, over an existing file too. A stored masked image read back as a SingleImage with mask threshold one has the same pixels and mask as the array it came from.",
 ["inputs", "configurations"],
 "all pixels, masks and kinds of array",
 "tests store unmasked real arrays and only check the returned type",
 [U, SI], [("conversion to FITS", U + ":store_img"), ("mask read from the first extension", SI + ":SingleImage.mask setter")])
prop("C24", "Delta sources appear with their own weight at their own position",
 "`delta_point` returns an NxN array which is zero except for each given weight (one when none are given) at its own position, or one in the central pixel when centred. Positions and weights may be lists, tuples, arrays, zips or generators, integer or fractional.",
 ["inputs", "configurations"],
 "all distinct positions, weights and kinds of sequence",
 "tests check a single list of positions with equal weights",
 [SIM], [("placing of the deltas", SIM + ":delta_point")])
prop("C26", "Simulated exposures are their documented sum and are reproducible",
 "`image` returns the master convolved with one PSF of the widths and angle asked for, plus one noise draw per pixel (Poisson with mean peak/SN, or Gaussian with the given deviation, else peak/SN), plus the bias. The same seed (zero included) gives the same exposure whatever was drawn before, and without a seed no noise is repeated. `sim_varpsf` places a quarter of the stars, away from the edges and with fluxes from 100 to 10000, in each of four quadrants with its own angle, and `store_fits` stores pixels, epoch, exposure time and zero point.",
 ["inputs", "histories", "configurations"],
 "all master images, noise settings, seeds and call histories",
 "tests check shapes and compare one seed once",
 [SIM], [("exposure simulation and storage", SIM + ":image, sim_varpsf, store_fits")])

prop("C27", "Plots show the data they announce, each component on its own axes",
 "`plot.autopsf` shows every component of the PSF exactly once and in order, `plot.autopsf_coef` every coefficient field evaluated at the pixels of the image, each on axes of its own, for any number of components and stamp shape: on axes made for them, or on the caller's; too few of those give a ValueError and nothing drawn. A constant PSF has no coefficients to plot (NoDataToPlot), an unknown, private or non-plot name raises ValueError, and the caller's options (information loss, limits, contour and colour bar options) are honoured. Image and option dictionaries stay unchanged, no component's picture depends on the others'; `plot_S` and `plot_R` show the pixels given and store them where asked.",
 ["inputs", "configurations"],
 "all pixels, numbers of components, kinds of axes and options",
 "tests plot one image with four components on square stamps and compare the figures with a copy of the code",
 [PLOT], [("grid of axes, component loop, dispatch", PLOT + ":Plot.__call__, autopsf, autopsf_coef, imshow, primes, plot_S, plot_R")])
prop("C29", "Aligning inside an operation equals operating on aligned images",
 "`coadd` with alignment (its default) and `subtract` with alignment return what they return without it for images moved beforehand to the frame of the first image (the reference): each other image is registered exactly once, to that frame, takes its mask and class along and is masked where it does not reach. The images given keep their pixels and masks, and images of another size are accepted. When an image cannot be registered a ValueError comes through.",
 ["inputs", "configurations", "fault_sequences"],
 "all pixels, shifts, masks, image sizes and failing registrations",
 "tests align simulated images that are aligned already and only check that something is returned",
 [OPS, U], [("registration of the other images", OPS + ":subtract, coadd"), ("alignment of a list to its first image", U + ":_align_for_coadd")])
prop("C30", "Operations treat any image source as the image built from it",
 "`subtract` and `coadd` take arrays, masked arrays, HDUs, HDU lists, FITS files and SingleImages (a plain SingleImage too where Gaussian PSFs are asked for), in any combination, and return what they return for images built from them explicitly: masks and gains are kept, `smooth_psf` is passed on. The caller's arrays and list are not changed and what is no image raises. `diff` and `stack_R` return the same as `subtract` and `coadd`, with a DeprecationWarning.",
 ["inputs", "configurations"],
 "all pixels and combinations of kinds of input",
 "tests pass the same kind of input twice and only check the types returned",
 [OPS], [("coercion of the inputs", OPS + ":subtract, coadd, diff, stack_R")])
prop("C31", "The Gaussian PSF of an image averages one fit per measured star",
 "A SingleImageGaussPSF fits a Gaussian plus constant, over the stamp's own grid with x along columns, to the stamp of every measured star exactly once. Its PSF is the unit-amplitude Gaussian centred at the origin with the sigma-clipped mean widths and angle of these fits, and the rendering of that same model, with a constant field. Asking again, or with another information loss or shape, gives the same and leaves the stamps alone.",
 ["inputs", "histories"],
 "all stamps, fitted parameters, clipped statistics and numbers of stars",
 "tests only check the types returned for one simulated field",
 [SI, U], [("fits and their average", SI + ":SingleImageGaussPSF.get_variable_psf"), ("Gaussian plus constant fitted to one stamp", U + ":fit_gaussian2d")])
prop("C32", "Operations leave their inputs alone and repeat exactly",
 "`subtract` and `coadd`, aligned or not, change neither the pixels, mask, gain, measured stars nor star database of the images given (their zero point and the information loss are set). Calling one again with the same images and options gives the same result, whatever operations on those images came in between, and the same as with images built anew.",
 ["histories"],
 "all sequences of operations between two equal calls, up to the stated length",
 "tests call each operation once on fresh images",
 [OPS, SI], [("operations and their use of the images' caches and files", OPS + ":subtract, coadd"), ("lazy measurements and star database they rely on", SI + ":get_variable_psf, db, _clean")])
prop("C33", "Fitted beta and shift minimise the residual of the difference",
 "When beta and/or the sub-pixel shift are fitted, the function handed to the optimiser is the absolute value of the difference image at the trial beta and shift (formula of C01, normalised with the trial beta) minus the difference of the backgrounds over sqrt(var_n^2 + beta^2 var_r^2), moved by the whole-pixel part of the shift along each axis: summed over the unmasked pixels, or averaged inside the border OPT_BORDER when a shift is fitted. beta is sought from the ratio of zero points within [0.1, 10], the shift from none within 0.9 pixels. The value depends on the trial parameters only.",
 ["inputs", "configurations"],
 "all pixels, masks, trial shifts and scales, zero-point ratios and option combinations",
 "tests never evaluate the cost; a wrong one only moves the optimum",
 [OPS], [("cost functions of the four fits", OPS + ":subtract")],
 note="Images up to 4x4 pixels.")
prop("C34", "Background and noise are those of the good pixels of the scaled image",
 "The background and the noise level of an image are the estimate made from gain times its pixels with exactly the bad pixels left out, whatever the input kind, the origin of the mask and the mask threshold; the values of bad pixels have no influence. `background` plus `bkg_sub_img` gives back the image at every good pixel, with the same mask. Neither changes when the image is used, nor does writing to the returned subtracted image change the image.",
 ["inputs", "configurations", "histories"],
 "all pixel values, gains, masks, input kinds and uses in between",
 "tests look at the type and size of the background of a few images",
 [SI], [("background estimate", SI + ":SingleImage._bkg, background, bkg_sub_img, var")])
prop("C90", "Results are stable against floating-point rounding",
 "The difference, score and coadd images computed in double precision stay within a small relative error of their exact real values for every input whose PSFs and noise levels are within a stated range.",
 ["inputs"], "all pixel values, PSFs and noise levels",
 "tests compare with loose tolerances on a few images",
 [OPS], [("divisions by Fourier-space norms that may be tiny", OPS + ":subtract, coadd")],
 claimed=False,
 reason="the claim is about IEEE arithmetic inside FFTs, scipy and C libraries: the checks' encoding is over the reals, and bit-precise floating-point encodings of even a 4x4 transform with division and square roots are out of reach of the solvers here")
prop("C91", "Background, cosmic-ray, source and registration kernels are accurate",
 "The background model, the cosmic-ray map, the extracted sources and the registration describe the image's content within their stated accuracy.",
 ["inputs"], "all images",
 "tests look at a few simulated images",
 [SI, OPS], [("calls into sep, astroscrappy and astroalign", SI + ":_bkg, interped, best_sources; " + OPS + ":subtract")],
 claimed=False,
 reason="decided entirely inside compiled third-party extensions (sep, astroscrappy, astroalign's RANSAC) whose sources are not part of the repository; the checks treat their answers as arbitrary and claim only what the repository does with them")
prop("C92", "The fits of beta, shift and Gaussian PSFs converge to the optimum",
 "The optimisers and the Gaussian fitter called by `subtract` and `GaussPSF` end in the global minimum of the cost they are given.",
 ["inputs"], "all costs that images can produce",
 "tests only look at a few simulated images",
 [OPS, SI], [("scipy.optimize calls and astropy fitting", OPS + ":subtract; " + SI + ":SingleImageGaussPSF")],
 claimed=False,
 reason="convergence of iterative floating-point optimisers in scipy is not a property of this code and cannot be encoded; C33 decides the cost function that is handed over, and C01, C02 and C31 what is done with any answer")
