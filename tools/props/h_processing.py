P = "mt_metadata/processing/"
A = P + "aurora/"
F = "mt_metadata/features/"
W = F + "weights/"
BOUND = "Exploration by seeded random generation"
PROPS = [
dict(id="C30", title="Bands, windows and decimation levels mean what they say",
 statement="A band holds exactly the harmonics between its bounds, given in any order, with or without either bound as it is closed; its indices, width, centre (geometric or arithmetic), period, fractional bandwidth and Q follow from its bounds; overlap, and containing both bounds of another band, are those of the intervals. A collection of bands keeps its edges, gives bands and centres in any order asked for without changing its own, and sorting and validation put them in order. The taper of a window is that of its current type, arguments, length and normalization; its advance, harmonics and whether a series is long enough follow. Bands assigned to a configuration give decimation levels with the window lengths of their numbers, whose sample rates are cascaded from the given one by the factors of the levels before, in any order of the levels, whose bands hold the harmonics of the level, and whose band edges, frame, harmonics and indices agree; decimations made for Fourier coefficients cascade alike.",
 over=["inputs", "histories"], quantifier="every band, collection, window and set of levels and factors, windows also after they change",
 why="tests use one factor for all levels, one window used once and bands whose edges are not harmonics; boundaries, unequal factors and changes need generation",
 files=["mt_metadata/common/band.py", A+"frequency_bands.py", P+"window.py", A+"processing.py", A+"decimation_level.py", P+"fourier_coefficients/decimation.py"],
 mechanism=[("Band.set_indices_from_frequencies, in_band_harmonics, overlaps, contains", "mt_metadata/common/band.py"), ("FrequencyBands.bands, sort, validate, band_centers", A+"frequency_bands.py"), ("Window.taper, fft_harmonics", P+"window.py"), ("Processing.assign_bands, assign_decimation_level_data_emtf", A+"processing.py"), ("fc_decimations_creator, get_degenerate_fc_decimation", P+"fourier_coefficients/decimation.py")],
 technique="property-based testing: generated bands, windows and levels against interval arithmetic, scipy windows and cascaded rates",
 note=BOUND+", edges on a grid so that they meet harmonics and each other, up to 6 bands and 4 levels."),
dict(id="C31", title="Processing configurations keep their levels, channels and stations",
 statement="A processing configuration written to a dictionary or JSON (flat or nested), to a series, or copied, reads back equal, with the same levels (decimation, window, transform, bands, channels, estimator, regression) and stations, once each also when read again. Levels given as list, mapping, dictionaries or one at a time are found by number; channels set on the configuration are set in every level; default channels are those of the nomenclature; without remote stations remote reference estimators become single station ones. Archived spectra are accepted for a level exactly when they have its channels (local or reference), its harmonics (or all), and its sample rate, transform, prewhitening, recoloring, detrending, least number of windows and window; those made for the level are. Stations (remote ones added, or set as station, list or dictionaries) give one row per time period of each run, and stations read from the rows are the same and replace what was there.",
 over=["inputs", "histories"], quantifier="every configuration of levels, channels and stations, every single difference of archived spectra",
 why="tests compare single levels and defaults; doubled levels, parameters compared with nothing and stations read twice show up only for several generated ones",
 files=[A+"processing.py", A+"decimation_level.py", A+"stations.py", A+"station.py", A+"run.py", A+"channel_nomenclature.py"],
 mechanism=[("Processing.validate_decimations, add_decimation_level, set_*_channels, validate_processing", A+"processing.py"), ("DecimationLevel.is_consistent_with_archived_fc_parameters, to_fc_decimation", A+"decimation_level.py"), ("Stations.to_dataset_dataframe, from_dataset_dataframe, add_remote, get_station", A+"stations.py"), ("Station.to_dataset_dataframe, from_dataset_dataframe, get_run", A+"station.py"), ("Run.channel_scale_factors, set_channel_scale_factors", A+"run.py"), ("ChannelNomenclature.update, default_input_channels", A+"channel_nomenclature.py")],
 technique="property-based testing: round trips of generated configurations, a reference model of levels and rows, and single changes of archived parameters",
 note=BOUND+", up to 3 levels, 3 stations, 3 runs and 3 time periods. XML of a configuration is outside (it is not supported)."),
dict(id="C36", title="Weights of features follow their kernels",
 statement="The weight of a monotonic kernel that is active is, for every value, that of its style (tapers: rectangle, hann, hamming, blackman; activations: sigmoid, hard sigmoid, tanh, hard tanh) between its bounds and steepness, constant outside them, low cut rising and high cut falling, within 0 and 1 and going up and down with the value; an activation without two finite bounds is half way everywhere. A taper kernel of two regions is the product of its low and high cut, a step where a transition has no width. Kernels that are not active weigh one. A feature's weights are the product of its kernels; a channel's are combined over its features by its style (multiply, minimum, maximum, mean), all one without features, and a missing feature is refused. Copies of specifications keep features of their own class with their parameters, and all kernels. Weights of a band are those at the frequency nearest to its centre.",
 over=["inputs"], quantifier="every kernel, set of values, combination of features and channels",
 why="tests evaluate a few kernels at a few values; values on and outside bounds, kernels that are not active and features of other classes need generation",
 files=[W+"monotonic_weight_kernel.py", W+"taper_monotonic_weight_kernel.py", W+"activation_monotonic_weight_kernel.py", W+"taper_weight_kernel.py", W+"feature_weight_spec.py", W+"channel_weight_spec.py"],
 mechanism=[("MonotonicWeightKernel._normalize", W+"monotonic_weight_kernel.py"), ("TaperMonotonicWeightKernel.evaluate", W+"taper_monotonic_weight_kernel.py"), ("ActivationMonotonicWeightKernel.evaluate", W+"activation_monotonic_weight_kernel.py"), ("TaperWeightKernel.evaluate", W+"taper_weight_kernel.py"), ("FeatureWeightSpec.evaluate, validate_feature", W+"feature_weight_spec.py"), ("ChannelWeightSpec.evaluate, get_weights_for_band", W+"channel_weight_spec.py")],
 technique="property-based testing: generated kernels and specifications against scalar formulas, and round trips",
 note=BOUND+", up to 12 values, 3 kernels and 3 features."),
]
