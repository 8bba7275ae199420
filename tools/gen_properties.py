"""Writes properties.jsonl (one JSON object per line)."""
import json, os
M = "SciDataTool/Methods/"
F = "SciDataTool/Functions/"
C = "SciDataTool/Classes/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None},
    }
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)


prop("C01", "Reading a field or an axis never changes it",
     "Whatever sequence of read-only requests (extractions, reductions, transforms, spectra, levels, harmonics, interpolations, derived objects, comparisons, exports, whether they succeed or are rejected) is made on a field, vector field or axis, the object afterwards equals what it was before and every later request gives the answer it would give on a freshly built object.",
     ["histories", "inputs"], "All sequences of read requests, including rejected ones, on every kind of field and axis.",
     "Tests issue one request per object or never look at the object again; the property is about every history of requests, including requests that raise half way.",
     [M + "DataND/get_along.py", M + "DataND/_get_field.py", M + "DataND/_extract_slices.py", M + "DataND/_rebuild_symmetries.py", M + "DataLinspace/get_values.py", M + "Data1D/get_values.py", M + "DataDual/get_along.py", M + "VectorField/get_rphiz_along.py", M + "VectorField/get_xyz_along.py"],
     [("symmetry tables are read, or restored after a temporary change", M + "DataND/_rebuild_symmetries.py"), ("temporary components are removed after use", M + "VectorField/get_rphiz_along.py"), ("results are new arrays", M + "DataND/get_along.py")],
     ["state of the object before and after, answers of later requests"])

prop("C02", "Data stored on one period answers like data stored in full",
     "A field stored on one (anti-)period together with the number of repetitions gives, for every request, the same coordinates and values as the field in which all the periods are written out explicitly.",
     ["inputs", "configurations"], "All requests on all combinations of periodic, anti-periodic and non-periodic axes.",
     "Tests cover a handful of requests on one symmetric axis; agreement must hold for every request on every combination of symmetries.",
     [F + "symmetries.py", M + "DataND/_rebuild_symmetries.py", M + "DataND/_get_field.py", M + "DataND/_extract_slices.py", M + "RequestedAxis/get_axis.py", M + "DataLinspace/get_values.py", M + "Data1D/get_values.py", F + "sum_mean.py", F + "derivation_integration.py"],
     [("periods are rebuilt on demand", F + "symmetries.py"), ("choice of the smallest sufficient period", M + "RequestedAxis/get_axis.py"), ("operations account for the repetitions", F + "sum_mean.py")],
     ["results of the same request on both objects"])

prop("C03", "A selection returns exactly the requested samples and coordinates",
     "Extracting a field by index, list or range of indices, value, interval, lower or upper bound, or period selector returns exactly the samples that satisfy the request on each axis, in the requested order, each with its own coordinate. Axes that are not mentioned are taken at their first sample and reported as such, and neither the order of the arguments nor the name of an axis changes the answer.",
     ["inputs", "configurations"], "All selections on one to three axes, in any argument order.",
     "Tests check a few selections on one grid; off-by-one, axis mix-ups and period boundaries depend on the combination of request kinds, positions and axis order.",
     [F + "parser.py", F + "fix_axes_order.py", M + "DataND/get_along.py", M + "DataND/_comp_axes.py", M + "DataND/_extract_slices.py", M + "RequestedAxis/get_axis.py", F + "interpolations.py"],
     [("request language", F + "parser.py"), ("selection of the coordinates", M + "RequestedAxis/get_axis.py"), ("selection of the samples", M + "DataND/_extract_slices.py")],
     ["values and coordinates returned by the extraction"])

prop("C04", "Reductions equal their definition over the whole axis",
     "Reducing any set of axes by sum, mean, maximum, minimum, root mean square, root sum square or integral gives the value of that definition applied, axis by axis in storage order, to all the samples the axes represent, periods included. The other axes of the request keep their samples and coordinates.",
     ["inputs", "configurations"], "All combinations of reductions and selections over one to three axes, with and without symmetries.",
     "Tests reduce one axis at a time, mostly without symmetries; the number of repetitions, anti-periods and combinations of several reductions are not reached.",
     [F + "sum_mean.py", F + "derivation_integration.py", M + "DataND/_apply_operations.py"],
     [("reductions", F + "sum_mean.py"), ("integration on the closed period", F + "derivation_integration.py"), ("dispatch and periodicity", M + "DataND/_apply_operations.py")],
     ["values returned by the extraction"])

prop("C05", "Derivatives and primitives follow the calculus of periodic signals",
     "The derivative along a time or angle axis is the central difference of the periodic (or anti-periodic) signal at every sample wherever the axis starts, and along frequency it is the multiplication by i times the pulsation. The primitive is the zero-average trapezoidal primitive of a zero-average signal (division by i times the pulsation along frequency) and keeps the symmetry of the signal, local integrals are the trapezoids between consecutive samples, and all of them act on each line of a multi-dimensional field independently.",
     ["inputs", "configurations"], "All axes, symmetries, origins, steps and positions of the axis in the field.",
     "Tests compare with smooth analytic functions on an axis starting at zero; boundary samples, anti-periods, other origins and other axis positions are not covered.",
     [F + "derivation_integration.py", M + "DataND/_apply_operations.py", F + "conversions.py"],
     [("periodic padding", F + "derivation_integration.py"), ("integration constant", F + "derivation_integration.py")],
     ["values returned by derivate, antiderivate and local integration requests"])

prop("C06", "Spectra are the Fourier coefficients of the full signal",
     "The spectrum of a sampled field along time, angle or both equals the discrete Fourier coefficients of the full signal at the reported frequencies and wavenumbers: one-sided amplitudes for real signals along time (or along angle when only non-negative wavenumbers are asked for), two-sided elsewhere, constant term unscaled. Symmetric storage only removes lines that are zero, and selections, values and reductions on the spectral axes act on those coefficients.",
     ["inputs", "configurations"], "All real and complex fields on one to three axes with any symmetries and selections on the spectral axes.",
     "Tests compare peaks of pure waves on one grid; normalisation, line positions and axis handling must hold for every signal, length, symmetry and axis order.",
     [F + "fft_functions.py", F + "nudft_functions.py", F + "conversions.py", M + "DataND/_extract_slices_fft.py", M + "DataND/_comp_axes.py", M + "RequestedAxis/get_axis.py"],
     [("frequency and wavenumber vectors", F + "fft_functions.py"), ("one-sided scaling", F + "fft_functions.py"), ("extension to a full period", M + "DataND/_get_field.py")],
     ["spectra returned by extraction"])

prop("C07", "Time and frequency representations carry the same field",
     "Transforming a field to the frequency domain and back (with an even number of samples per period along time) restores its coordinates and values over all its periods, and a field stored as a spectrum, or in both domains, answers every request in either domain like the original time-domain field, whatever the order of the conversions and requests.",
     ["histories", "inputs", "configurations"], "All sequences of conversions and requests over fields with one or two transformable axes, symmetries and extra axes.",
     "Tests do one conversion on pure waves; the agreement between representations is over all signals and all chains of conversions and requests.",
     [M + "DataTime/time_to_freq.py", M + "DataFreq/freq_to_time.py", M + "DataTime/to_datadual.py", M + "DataFreq/to_datadual.py", M + "DataDual/get_along.py", F + "fft_functions.py"],
     [("forward and inverse transforms are inverse of each other", F + "fft_functions.py"), ("symmetry translation", M + "DataTime/time_to_freq.py"), ("domain choice", M + "DataDual/get_along.py")],
     ["results of requests on the converted objects"],
     [("axes_dt/axes_df", "axes of the dual object in each domain", C + "DataDual.py")])

prop("C08", "Magnitude, phase and harmonics are views of the same spectrum",
     "The magnitude and the phase of an extraction are the modulus and the argument of the complex result of the same extraction, and the N main harmonics are the N lines of largest magnitude of that spectrum, in decreasing order, each with its own coordinates.",
     ["inputs", "configurations"], "All spectra over one or two spectral axes, every N, every selection.",
     "Tests look at the main line of a few waves; ties, slices, two-dimensional spectra and every N are not reached.",
     [M + "DataND/get_magnitude_along.py", M + "DataND/get_phase_along.py", M + "DataND/get_harmonics.py"],
     [("sorting of the lines", M + "DataND/get_harmonics.py"), ("modulus", M + "DataND/get_magnitude_along.py")],
     ["results of the magnitude, phase and harmonics requests"])

prop("C09", "Unit conversion is a consistent algebra",
     "Converting between two units of the same dimension multiplies by the ratio of their values, whatever the prefixes, powers and denominators, so that conversions are invertible and compose; units of different dimensions are rejected and converting does not modify the values given.",
     ["inputs", "configurations"], "All pairs of units built from the supported symbols, prefixes, powers and denominators.",
     "Tests convert about ten pairs; the parser distinguishes symbols, prefixes and powers by text, so each combination can fail alone.",
     [F + "conversions.py"],
     [("unit parser", F + "conversions.py"), ("dimension table", F + "conversions.py")],
     ["results of conversions, rejections"])

prop("C10", "Requested units and normalizations apply to the right quantity only",
     "Asking for a unit or normalization on an axis or on the field returns the plain result with exactly that quantity converted or normalized (reference, affine, vector, index or function) and everything else unchanged, including for selections expressed in the requested unit. Requests in an unknown, incompatible or unavailable unit or normalization are rejected.",
     ["inputs", "configurations"], "All combinations of units and normalizations on axes and field with selections, periods and transforms.",
     "Tests try single conversions; interactions of axis units, normalizations, periods and selections are not covered.",
     [M + "DataND/_convert.py", M + "RequestedAxis/get_axis.py", M + "DataLinspace/get_values.py", M + "Data1D/get_values.py", M + "Norm_ref/normalize.py", M + "Norm_affine/normalize.py", M + "Norm_vector/normalize.py", M + "Norm_func/normalize.py", M + "Norm_indices/normalize.py"],
     [("field conversion", M + "DataND/_convert.py"), ("axis conversion", M + "DataLinspace/get_values.py"), ("normalization laws", M + "Norm_affine/normalize.py")],
     ["coordinates and values returned by the extraction"])

prop("C11", "Levels in decibels follow their definition",
     "Levels in dB are 20 (10 for power quantities) times the decimal logarithm of the magnitude over the reference (magnitudes below a given reference count as the reference), A-weighted levels add the standard weighting of the frequency of each line, and sums of levels and octave-band levels are the energetic sum of the lines they contain. The linear values used are not modified.",
     ["inputs", "configurations"], "All magnitudes, references, units, frequencies and bands.",
     "Tests check isolated values; the definition has to hold on every line, axis position, reference and band edge.",
     [F + "conversions.py", M + "DataND/_convert.py", M + "DataND/get_magnitude_along.py", F + "sum_mean.py"],
     [("level definition", F + "conversions.py"), ("energetic sum", F + "sum_mean.py"), ("weighting per frequency", M + "DataND/_convert.py")],
     ["levels returned by magnitude requests and level functions"])

prop("C12", "All descriptions of an axis agree",
     "For every axis, the announced length is the number of values returned for each period option, the smallest period, the period and the full axis are prefixes of one another with constant repetition, the announced periodicity is the one used to rebuild it, and reducing an axis to a period or turning explicit values into a linear description preserves the full coordinates.",
     ["inputs", "configurations"], "All linear, explicit and pattern axes with any parametrisation, symmetry and normalization.",
     "Tests check one axis of each kind; every parametrisation and symmetry combination has its own arithmetic.",
     [M + "DataLinspace/get_values.py", M + "DataLinspace/get_length.py", M + "DataLinspace/get_axis_periodic.py", M + "Data1D/get_values.py", M + "Data1D/get_length.py", M + "Data1D/get_axis_periodic.py", M + "Data1D/to_linspace.py", M + "DataLinspace/has_period.py", M + "DataLinspace/get_periodicity.py", F + "symmetries.py"],
     [("length computation", M + "DataLinspace/get_length.py"), ("reduction to a period", M + "DataLinspace/get_axis_periodic.py"), ("rebuilding", F + "symmetries.py")],
     ["values, lengths and periodicities of the axes"])

prop("C13", "Copies are equal and independent; comparison sees every difference",
     "A copy of any object equals the original and answers like it, no later change of either one is visible in the other, and two objects compare equal exactly when all their contents are equal, every single difference being reported by the comparison.",
     ["histories", "inputs"], "All classes, all attributes, all single changes applied after copying.",
     "Tests copy one or two objects; each of the attributes of each class can be forgotten independently in copy, equality or comparison.",
     [C + f for f in ("Data1D.py", "DataLinspace.py", "DataPattern.py", "DataND.py", "DataTime.py", "DataFreq.py", "DataDual.py", "VectorField.py", "Norm_ref.py", "Norm_affine.py", "Norm_vector.py", "Norm_func.py", "Norm_indices.py", "RequestedAxis.py")],
     [("deep copy of each attribute", C + "Data1D.py"), ("equality and difference report", C + "Data1D.py")],
     ["copies, equality results and difference lists"])

prop("C14", "Dictionaries and saved files restore the same object",
     "Exporting any object to a dictionary or to a file and rebuilding it gives an object equal to the original that answers every request identically, for every content of its attributes.",
     ["inputs", "configurations", "histories"], "All classes and attribute contents, chains of exports and loads.",
     "Tests save one object of a few classes; every attribute of every class must survive.",
     [F + "Load/load_json.py", F + "Load/import_class.py", F + "save.py", F + "load.py", C + "Data1D.py", C + "DataLinspace.py", C + "DataTime.py", C + "VectorField.py"],
     [("dictionary export", C + "DataTime.py"), ("rebuilding from a dictionary", C + "DataTime.py"), ("file writer", F + "save.py")],
     ["rebuilt objects"])

prop("C15", "Vector field components agree in every frame",
     "The cartesian components of a vector field are the rotation by the local angle of its radial and tangential components and conversely, the axial component is unchanged, and converting to the other frame and back restores the field. Extractions, magnitudes and harmonics requested in one frame equal those of the field explicitly converted to that frame, whichever components are present.",
     ["inputs", "configurations", "histories"], "All sets of components, axes, symmetries and requests in both frames.",
     "Tests check the radial case on one grid; subsets of components, periodic angles and round trips are not covered.",
     [M + "VectorField/to_xyz.py", M + "VectorField/to_rphiz.py", M + "VectorField/get_xyz_along.py", M + "VectorField/get_rphiz_along.py", M + "VectorField/get_mag_xyz_along.py", M + "VectorField/get_mag_rphiz_along.py", M + "VectorField/get_harm_xyz_along.py", M + "VectorField/get_harm_rphiz_along.py", F + "conversions.py"],
     [("frame rotation", F + "conversions.py"), ("component bookkeeping", M + "VectorField/to_xyz.py")],
     ["components returned in both frames"])

prop("C16", "Sum and product of spectra match the signals they represent",
     "The sum of two spectra represents the sum of the two signals and their convolution the product of the two signals, on the union of the resulting lines, whichever lines each one contains and within the requested frequency band.",
     ["inputs", "configurations"], "All pairs of line sets, with and without constant terms, coincident lines and band limits.",
     "Tests combine two fixed spectra; coincidences between sum and difference lines and constant terms depend on the pair of line sets.",
     [M + "DataFreq/sum.py", M + "DataFreq/conv.py", F + "sum_convolution.py", F + "set_routines.py"],
     [("line merging", F + "set_routines.py"), ("negative lines by conjugation", M + "DataFreq/conv.py")],
     ["lines and values of the result, signal evaluated from the lines"])

prop("C17", "A change of rotating frame is an exact, invertible shift",
     "Moving a field to a frame rotating at a given speed shifts each travelling wave by its wavenumber times the rotation frequency without changing its amplitude, speed zero changes nothing, and moving back with the opposite speed restores the field.",
     ["inputs", "configurations"], "All sets of waves, speeds, symmetries and component sets.",
     "Tests check one wave set and one speed; lines that merge, cross zero or lie on the constant term depend on the combination.",
     [M + "DataND/change_referential.py", F + "change_referential.py", M + "VectorField/change_referential.py"],
     [("frequency shift and merging", F + "change_referential.py")],
     ["spectra and waveforms in the new frame"])

prop("C18", "Interpolation passes through the samples and is linear in between",
     "Requesting a field at two or more coordinates inside the range of its axis returns, in the order of the request and in the requested unit, the stored value at every coordinate that is a sample and the linear interpolation between the two neighbours elsewhere, independently along each axis and across period boundaries. Comparing several fields reads each of them on the finest common sampling in the same way.",
     ["inputs", "configurations"], "All coordinate lists (any order, repeated, on and between samples), axes, symmetries.",
     "Tests interpolate on one increasing grid; order, repetition, subsets and period boundaries select different code paths.",
     [F + "interpolations.py", M + "DataND/_interpolate.py", M + "RequestedAxis/get_axis.py", M + "DataND/compare_along.py", M + "DataND/compare_magnitude_along.py", M + "DataND/compare_phase_along.py"],
     [("choice between taking and interpolating", F + "interpolations.py"), ("period reconstruction for the requested range", M + "RequestedAxis/get_axis.py")],
     ["values returned for given coordinates"])

prop("C19", "A derived field object holds what the extraction returned",
     "The field object built from a request contains the coordinates, values and symmetries of that request, so that reading it in full gives the extraction of the original field, with the unit of the operation applied, and building it leaves the original unchanged.",
     ["inputs", "configurations", "histories"], "All requests and chains of derived objects.",
     "Tests build a few derived objects; labels, symmetries and units depend on every combination of requests and argument order.",
     [M + "DataND/get_data_along.py", F + "derivation_integration.py", F + "conversions.py", M + "VectorField/get_vectorfield_along.py"],
     [("axis construction", M + "DataND/get_data_along.py"), ("unit of the result", F + "conversions.py")],
     ["requests on the derived object"])

prop("C20", "Exported files contain the requested values",
     "A file exported from a request contains every value of the request next to its coordinates and units, for any number of axes and for every component.",
     ["inputs", "configurations"], "All one, two and three-dimensional requests, formats and components.",
     "Tests check that files exist; contents, orientation and headers are not compared for each request.",
     [M + "DataND/export_along.py", M + "DataND/plot_2D_Data.py"],
     [("writer", M + "DataND/export_along.py")],
     ["contents of the files"])

prop("C21", "Tolerant set operations merge only what is within tolerance",
     "Uniting, intersecting and deduplicating lists of values within a tolerance keep one representative of each group of values closer than the tolerance, never lose or invent a value, return valid positions in the inputs, and give the exact set operations when the values are far apart.",
     ["inputs"], "All small lists of values with coincidences, near coincidences and repetitions, and all tolerances.",
     "Tests use one list per function; groups on rounding boundaries, duplicates and orderings are not reached.",
     [F + "set_routines.py"],
     [("quantisation by the tolerance", F + "set_routines.py")],
     ["returned values and positions"])

prop("C22", "Component axes select and combine the named components",
     "An axis of named components returns exactly the components selected by index, by list or by filter with their names, and operations over it combine exactly those components.",
     ["inputs", "configurations"], "All component lists, selections, filters and operations.",
     "Tests use one list of components; every filter and position must select the right ones.",
     [M + "Data1D/get_filter.py", M + "Data1D/check_filter.py", M + "RequestedAxis/get_axis.py", M + "DataND/_extract_slices.py"],
     [("filter", M + "Data1D/get_filter.py")],
     ["names and values returned"])

prop("C23", "Rejected assignments leave objects intact and valid",
     "Assigning a value of the wrong kind, or an unknown attribute, to any object is rejected with an error and leaves every attribute as it was, while every allowed value is stored and read back unchanged.",
     ["inputs", "histories"], "All classes, all attributes, all kinds of values, sequences of assignments.",
     "Tests only assign valid values; every attribute has its own guard.",
     [C + "_check.py", C + "_frozen.py", C + "Data1D.py", C + "DataLinspace.py", C + "DataTime.py", C + "VectorField.py"],
     [("type guard", C + "_check.py"), ("frozen attributes", C + "_frozen.py")],
     ["attributes before and after"])

prop("C24", "Pattern axes behave as the full axis they abbreviate",
     "A field on a step or pattern axis, stored on its unique samples, answers every request like the field in which the repeated samples are written out at all the coordinates of the axis.",
     ["inputs", "configurations"], "All patterns, step or point-wise, in any axis position and with any request.",
     "Tests use three patterns; rebuilding indices and positions in the field combine freely.",
     [M + "DataPattern/get_values.py", M + "DataPattern/get_length.py", M + "DataND/_get_field.py", M + "DataND/_rebuild_symmetries.py", F + "interpolations.py", F + "derivation_integration.py"],
     [("rebuild indices", M + "DataPattern/get_values.py")],
     ["results of requests"])

prop("C25", "Two-dimensional plots draw the extracted values",
     "A 2D plot shows one curve or series of bars per requested slice, component and compared field, at exactly the coordinates and values that the same extraction returns in the requested unit. Labels, tick names, legend and title state the axis, unit and slice that are drawn, and an overall curve combines the axes asked for.",
     ["inputs", "configurations"], "All requests leaving one axis, plot types, compared fields, figure arguments and display options.",
     "Tests look at the pictures by eye, or only check that no error is raised.",
     [M + "DataND/plot_2D_Data.py", F + "Plot/plot_2D.py", M + "DataND/get_magnitude_along.py"],
     [("legend and label building", M + "DataND/plot_2D_Data.py"), ("drawing", F + "Plot/plot_2D.py")],
     ["curves, bars, labels, legend, ticks and limits of the figure"])

prop("C26", "Three-dimensional plots place each value at its two coordinates",
     "A map, contour, scatter, surface or stem plot shows each extracted value at the pair of coordinates it belongs to, in whatever order the two axes are named or switched. Drawing leaves the arrays it is given unchanged, and labels, units and limits are those of the axis they stand on.",
     ["inputs", "configurations"], "All requests leaving two axes, plot types, orders of axes and display options.",
     "Tests look at the pictures by eye, or only check that no error is raised.",
     [M + "DataND/plot_3D_Data.py", F + "Plot/plot_3D.py", F + "Plot/plot_4D.py"],
     [("orientation of values", M + "DataND/plot_3D_Data.py"), ("drawing", F + "Plot/plot_3D.py")],
     ["images, meshes, markers, stems, labels and limits of the figure"])

prop("C27", "Vector field plots draw the vectors and components of the field",
     "The arrows of a vector field plot stand at the positions of the requested points and show the requested vectors or component there, in any unit and frame and turned by the requested phase. Plots by component show, figure by figure and file by file, what the plot of that component alone shows with the same options.",
     ["inputs", "configurations"], "All frames, sets of components, requests leaving the angle, components drawn and display options.",
     "Tests look at the pictures by eye, or only check that no error is raised.",
     [M + "VectorField/plot_2D_Data.py", M + "VectorField/plot_3D_Data.py", F + "Plot/plot_2D.py"],
     [("positions and directions of arrows", M + "VectorField/plot_2D_Data.py"), ("forwarding of options", M + "VectorField/plot_3D_Data.py")],
     ["arrows, curves, maps, titles and saved files"])

prop("C28", "Animations show one picture per value of the animated axis",
     "An animated plot contains the requested number of pictures, equally spaced along the animated axis (one per position of a pattern axis), and each of them is the plot of the field at that value. Each component of a vector field gets its own file.",
     ["inputs", "configurations"], "All animated axes, in any unit and period, with any request of the other axes, for curves, maps and arrows.",
     "No test draws an animation.",
     [M + "DataND/plot_2D_Data_Animated.py", M + "DataND/plot_3D_Data_Animated.py", M + "VectorField/plot_2D_Data_Animated.py"],
     [("values of the animated axis", M + "DataND/plot_2D_Data_Animated.py")],
     ["pictures of the saved file"])

prop("C29", "Spectral lines may be asked for anywhere, whatever the sampling",
     "The value returned for a requested frequency or wavenumber is the Fourier coefficient of the samples at their actual positions, with phases referred to the origin of the axis, whether or not the line belongs to the regular set of lines, whether or not the samples are evenly spaced, wherever the axis starts and in whichever unit the line is given. Lines stored as a spectrum give back the samples at the positions they came from.",
     ["inputs", "configurations"], "All lists of frequencies and wavenumbers, on evenly and unevenly sampled axes with any starting point, real and complex.",
     "Tests use axes that start at zero and compare the magnitude of one peak; phases, scale factors and combinations of regular and irregular axes are never looked at.",
     [F + "fft_functions.py", F + "nudft_functions.py", M + "DataND/_extract_slices_fft.py", M + "DataND/_comp_axes.py"],
     [("direct summation for lines off the regular set", F + "nudft_functions.py"), ("choice between fast and direct transforms", F + "fft_functions.py")],
     ["spectra returned by extraction"])

prop("C30", "Leakage filtering gives back the amplitude of each known frequency",
     "For a field that is a sum of waves at known frequencies, filtering spectral leakage with these frequencies returns exactly the complex amplitude of each (zero for one that is absent) at every wavenumber and every position of the other axes. This holds whatever the order of the axes, for real and complex fields, for fields stored as samples or as a spectrum and for each component of a vector field, and the filtered field gives the waves at any instant.",
     ["inputs", "configurations"], "All lists of known frequencies within the range of the spectrum, on fields of one to four axes.",
     "Three tests filter one wave on one grid with an even number of angles, starting at zero.",
     [F + "filter_spectral_leakage.py", M + "DataND/filter_spectral_leakage.py", M + "VectorField/filter_spectral_leakage.py"],
     [("window of the observation", F + "filter_spectral_leakage.py"), ("mirroring to positive frequencies and wavenumbers", M + "DataND/filter_spectral_leakage.py")],
     ["lines of the filtered field"])

prop("C31", "A sparse signal observed at some instants is rebuilt at all of them",
     "Signals that are sums of few cosines and sines, observed at some instants only, are rebuilt at all instants as the greedy decomposition on these instants prescribes, each signal of the other axis on its own; a dictionary given by the user serves both for the decomposition and for the reconstruction. The choice of observed instants has the requested size, is ordered and repeatable, and designates the samples it says.",
     ["inputs", "configurations"], "All sets of observed instants and all signals of one or two atoms, one or several signals.",
     "Tests rebuild one signal with a tolerance of ten percent.",
     [F + "omp.py", M + "DataND/orthogonal_mp.py"],
     [("dictionary of cosines and sines", F + "omp.py"), ("columns are the signals", M + "DataND/orthogonal_mp.py")],
     ["rebuilt field"])

prop("C32", "Compared fields are read over the range they share",
     "Comparing fields sampled over different ranges returns them all at the same coordinates: the samples, within the range they share, of the field that has most of them there. Each value is the one of its field at that coordinate, linearly interpolated between its own samples, for values, magnitudes and phases and along several axes.",
     ["inputs", "configurations"], "All pairs and triples of samplings that overlap, with any start, step, number of samples and periodicity.",
     "Tests compare fields over one and the same range.",
     [F + "interpolations.py", M + "DataND/compare_along.py", M + "DataND/compare_magnitude_along.py", M + "DataND/compare_phase_along.py"],
     [("common sampling of two axes", F + "interpolations.py")],
     ["coordinates and values returned by a comparison"])

prop("C33", "Contribution plots share the overall between the components",
     "A contribution plot shows the overall of all the components and, stacked in decreasing order, the share of the energy of each selected component in it: the part of the power, or of the squared amplitude, A-weighted when the levels are. This does not depend on the order in which axes are stored or requested, nor on which components are selected.",
     ["inputs", "configurations"], "All orders of the axes, selections of components by number or by name, units and slices of other axes.",
     "No test draws contributions.",
     [M + "DataND/plot_2D_Data.py", F + "Plot/plot_2D.py"],
     [("share of each component", M + "DataND/plot_2D_Data.py"), ("stacked areas", F + "Plot/plot_2D.py")],
     ["overall curve and stacked areas of the plot, exported series"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
