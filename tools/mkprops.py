#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})
S = "src/dispersion/spectrum.py"; D = "src/dispersion/spectral_data.py"
M = "src/dispersion/material.py"; I = "src/dispersion/io.py"
C = "src/dispersion/catalogue.py"; G = "src/dispersion/config.py"
U = "src/dispersion/scripts/setup_dispersion.py"

p("C01", "Spectrum conversion is physically correct for every type and unit pair",
  "A Spectrum built from values in any supported type/unit (scalar, list, tuple, float or integer array) and converted to any supported type/unit gives, element by element and in the same order and shape, the physically equivalent quantity: lambda = c/f = hc/(eE) = 2 pi c/omega = 2 pi/k (k in 1/cm). The error is at most 1e-9 relative plus the library's display rounding (1e-9 eV, 1e-9 um, 1e-12 nm, 1e-13 cm, 1e-13 angstrom). An in-place conversion leaves the object describing the same physical points under the new type and unit.",
  ["inputs", "configurations"], "all finite positive values in [1e-3, 1e3] times a scale typical of each unit down to sub-nanometre wavelengths, all 9x9 (type, unit) pairs, scalars and arrays, ints and floats",
  "The tests convert two or three optical wavelengths to other types without even looking at the numbers; nothing converts to wavenumber, angstrom or centimetre and compares, and no test uses integers or short wavelengths.",
  [S], [("conversion functions to/from metres", S + ": *_to_standard, to_*, safe_inverse"), ("Spectrum.convert_to / convert_from", S)],
  ["Spectrum.convert_to return value", "Spectrum.values/unit/spectrum_type/standard_rep"])

p("C02", "Zero and infinite spectral values convert to their physical limits",
  "Converting 0 or +infinity between reciprocal quantities (wavelength to or from frequency, energy, angular frequency, wavenumber) gives +infinity or 0 respectively, for scalars and for every position of an array, without NaN or an exception. Every finite non-zero value next to them in the same array still converts to its own finite equivalent.",
  ["inputs", "configurations"], "every placement of 0 / inf / arbitrary finite values in arrays up to length 3 (quick) or 4 (thorough), all reciprocal type pairs",
  "One test inverts a single fixed array [0, 2, inf]; no test goes through the conversion functions with limits, or puts very small values beside them.",
  [S], [("safe_inverse, safe_inverse_array, safe_inverse_scalar", S)], ["safe_inverse", "Spectrum.convert_to"])

p("C03", "Values survive conversion to their own unit bit for bit; own end points accepted",
  "Converting a Spectrum to the type and unit it was created with returns exactly the values it was given (same IEEE doubles). Consequently tabulated data and models can always be evaluated at exactly the ends of their own range in their own unit.",
  ["inputs"], "all IEEE-754 doubles in the physical range of each unit (bit-precise floating point), all type/unit pairs",
  "Rounding failures affect sparse floating-point values (about 15% of random frequencies on the original tree), which two hand-picked wavelengths do not hit.",
  [S, D], [("Spectrum.convert_to", S), ("Spectrum.contains", S)], ["Spectrum.convert_to", "Interpolation.evaluate / Model.evaluate not raising"])

p("C04", "Exactly the documented spectrum types and unit spellings are accepted",
  "A type and unit are accepted, in any letter case, if and only if the type is one of wavelength, frequency, energy, angularfrequency, wavenumber and the unit is one of that type's documented spellings (m, cm, um, nm, a with their -meter/-metre names and angstrom; hz/hertz; ev/electronvolt; 1/s, rad/s; 1/cm); anything else raises ValueError. Construction and conversion use the same rule, alternative spellings of one unit give identical results, and non-numeric values (also inside lists and arrays) and integer scalars are refused with ValueError.",
  ["inputs"], "every printable-ASCII string up to length 12 as unit for each type, and up to length 16 as type",
  "Tests use a handful of lower-case spellings on the constructor only.",
  [S], [("Spectrum.standardise_unit", S), ("Spectrum.__init__, convert_to", S)], ["ValueError or the accepted canonical unit"])

p("C05", "Data is returned only inside its valid range, and always there",
  "Evaluating a constant, a table or any model for a spectrum in any type/unit returns values if all requested points lie inside the valid range of that data, and raises ValueError if any requested point lies outside it, whatever the position of that point in the array. Range comparison is done on physical quantities, so it does not depend on the unit used to ask (beyond a relative band of 1e-9 around the ends plus display rounding).",
  ["inputs", "configurations"], "arbitrary ranges and arbitrary query points, arrays up to 3 elements, all type/unit pairs for query and data, all data kinds",
  "The only test of contains() is one positive example in one unit; no test asks for a point outside a range.",
  [S, D], [("Spectrum.contains", S), ("evaluate() of Constant, Interpolation, Model.preprocess", D)], ["ValueError versus returned values"])

p("C06", "Refractive-index models 1-9 compute the refractiveindex.info formulas",
  "For any coefficients (any number of terms the format allows, up to 17 coefficients) and any wavelength in the valid range at which the formula is defined, Sellmeier, Sellmeier2, Polynomial, RefractiveIndexInfo, Cauchy, Gases, Herzberger, Retro and Exotic return the n given by formulas 1-9 of refractiveindex.info, with the wavelength in micrometres whatever unit was used to ask. Formulas that define n squared return its non-negative root.",
  ["inputs"], "all real coefficients and wavelengths (real arithmetic), every coefficient count the formula admits up to 17, query in um and in other units, scalar and array queries",
  "One test evaluates Sellmeier at one point; the other eight formulas are never evaluated by any test.",
  [D], [("evaluate() of the nine Model subclasses", D)], ["Model.evaluate return value"])

p("C07", "Drude, Drude-Lorentz, Tauc-Lorentz and Fano models compute their definitions",
  "For any parameters and photon energies in the valid range, Drude gives 1 - wp^2/(E^2 + i g E), Drude-Lorentz gives 1 + f wp^2/(w0^2 - E^2 - i g E), Tauc-Lorentz gives the Jellison-Modine real and imaginary permittivity (imaginary part zero below the gap) and Fano the normalised Fano profile, for scalar and array queries in any spectral unit. For non-negative physical parameters the imaginary part of the permittivity is never negative.",
  ["inputs"], "all real parameters (positive for passivity) and energies (Tauc-Lorentz: C < 2 E0), scalar and array queries",
  "test_drude evaluates without asserting anything; Drude is compared at one point through Material; the other three models are never run.",
  [D], [("Drude/DrudeLorentz/TaucLorentz/Fano.evaluate", D)], ["Model.evaluate return value"])

p("C08", "Models exist only in the spectral unit their formula is written in",
  "Constructing a refractive-index model with anything but wavelength in micrometres, or a permittivity model (Drude, Drude-Lorentz, Tauc-Lorentz) with anything but energy in electronvolt, raises ValueError; every accepted spelling and letter case of the required unit works for construction and evaluation.",
  ["configurations", "inputs"], "every model class with every supported type and every unit string up to length 12",
  "Tests construct two models in their required unit only.",
  [D], [("Model.validate_spectrum_type", D)], ["ValueError at construction"])

p("C09", "Evaluating an array equals evaluating each point on its own",
  "For every kind of spectral data and for whole materials, evaluating an array of N points (of one or more dimensions) returns N values in the same order and shape, each equal to what a scalar query and a one-element query for that point return. This includes queries that mix points inside and outside the original range of extrapolated data.",
  ["inputs", "configurations"], "arbitrary points, arrays up to length 3, all data kinds (constant, table, 12 models, extrapolated table) and both material representations",
  "Tests evaluate scalars only, except one one-element array on a constant.",
  [D, M], [("evaluate() of all SpectralData classes", D), ("Material.get_nk_data / get_permittivity", M)], ["returned arrays"])

p("C10", "Tables are interpolated linearly between neighbours and exactly at their points",
  "For a table in any type/unit, evaluation at a tabulated point gives the tabulated value, and between two neighbouring points the default interpolation gives the straight line through them in the table's own spectral unit, independent of the unit used to ask. Rows given in any order mean the same table, and a requested interpolation order is the order actually used for every column.",
  ["inputs", "configurations"], "tables of up to 4 arbitrary rows (5 thorough), arbitrary query points, all type/unit pairs, interp_order 1..3",
  "One test evaluates a two-row table at its two end points.",
  [D, M], [("Interpolation", D), ("Material._process_table/_spec_data_from_table", M)], ["Interpolation.evaluate, Material.get_nk_data"])

p("C11", "Refractive index and permittivity of a material always satisfy eps = nk^2",
  "For every material, however it was defined, the permittivity equals the square of the complex refractive index at every point, the part(s) supplied by the user are returned unchanged, and a part that was not supplied is zero. The index derived from a permittivity is the root with non-negative real part (and k >= 0 when Im eps >= 0).",
  ["inputs", "configurations"], "all ways of defining a material (fixed n, nk, eps_r, eps; tables n, nk, eps; n- and eps-models), arbitrary complex values including negative and zero permittivity",
  "Tests check nk for one fixed index and one Drude point; get_permittivity is never called.",
  [M], [("Material.get_nk_data, get_permittivity, _complete_partial_data", M)], ["get_nk_data, get_permittivity"])

p("C12", "A material takes exactly one well-formed definition and rejects everything else",
  "Material() succeeds only if exactly one of the ten data definitions is given: none or more than one raises ValueError for every combination, a value of the wrong Python type raises TypeError, and a table that is not two-dimensional with the right number of columns raises ValueError. A well-formed single definition is stored under the right physical quantity (n/k or permittivity, real or imaginary or complex) with the requested default type and unit.",
  ["configurations", "inputs"], "all 2^10 subsets of definitions, all table shapes up to 4x5, all value types",
  "Tests construct materials from one definition each and never provoke an error.",
  [M], [("Material._parse_args/_check_type/_check_table_shape", M)], ["exceptions, Material.data, Material.defaults"])

p("C13", "Absorption-coefficient tables give k = alpha * lambda / (4 pi)",
  "A table of (spectrum, n, alpha) with alpha in 1/cm, given directly or read from a file, in any spectral type and unit, yields at every tabulated point the tabulated n and k = alpha*lambda/(4 pi) with lambda the vacuum wavelength in cm (1e-6 relative).",
  ["inputs", "configurations"], "tables up to 3 arbitrary rows in every type/unit, wavelengths from 1 nm to 1 mm",
  "No test builds such a material; on the original tree the constructor could not even be used.",
  [M, S], [("Material._process_table n_alpha branch", M), ("to_wavelength", S)], ["get_nk_data"])

p("C14", "The reported valid range is the overlap of the parts and is usable",
  "get_maximum_valid_range() returns [lower, upper] in the material's default type and unit such that exactly the points inside it are covered by both the real and the imaginary data (or by the complex model), independent of the types and units the parts were given in. Sampling the default spectrum of a material with a finite range, or the spectrum suggested by one of its data sets, covers that whole range and every sample can be evaluated; if the range is open at one end only, the samples start or end at the given end and stay inside.",
  ["inputs", "configurations"], "arbitrary ranges for both parts, all combinations of part types/units and default types/units",
  "No test calls it.",
  [M, D], [("Material.get_maximum_valid_range, get_sample_spectrum", M), ("SpectralData.suggest_spectrum", D)], ["returned range; get_nk_data at and beyond its ends"])

p("C15", "Extrapolation extends the range, keeps in-range data; absorption can be removed",
  "After extrapolate(), points between the old range and the requested limits are evaluable, points beyond the requested limits still raise ValueError, all in-range values are exactly the original ones, constant parts are untouched, and asking for limits inside the range raises ValueError and changes nothing, for limits given in any type/unit. Both parts are continued with the requested spline order; with order 1 a two-row table continues as its straight line. remove_absorption() makes k (or Im eps) of a material with separate parts zero everywhere and leaves the real part and its range unchanged; materials defined by one complex model refuse to be extrapolated.",
  ["inputs", "configurations", "histories"], "arbitrary tables and limits in all type/unit pairs, one or two limits, spline orders 1-3",
  "No test extrapolates or removes absorption.",
  [D, M], [("Extrapolation", D), ("Material.extrapolate, remove_absorption", M)], ["get_nk_data before/after"])

p("C16", "Queries never change the material, the table or the spectrum they are given",
  "Evaluating, converting (not in place), asking for ranges, extrapolating with, or mixing materials over a spectrum never changes that spectrum's values, type, unit or physical points, the user's input arrays, or the other materials involved. Repeating a query, or interleaving any other queries, gives the same answer as asking it first.",
  ["histories", "inputs"], "all sequences of up to 3 public queries over shared Spectrum and Material objects with arbitrary values and units",
  "Every test makes one query on fresh objects.",
  [S, D, M], [("in_place conversions; shared arrays", S + "; " + D + "; " + M)], ["Spectrum attributes and query results before/after"])

p("C17", "Text files written by the library read back as the same material",
  "Writing a tabulated material (n, nk or eps; any values, any spectral unit, one or more rows) to .txt, .csv or .nk and loading the file gives a material with the same table (1e-8 relative), spectral type, unit and quantity, and the same single-line metadata and comment. Writing leaves the material usable and unchanged.",
  ["inputs", "histories"], "tables of arbitrary numbers up to 3 symbolic rows and up to 400 rows in total, all units, metadata strings up to 4 (6) arbitrary printable characters",
  "No passing test writes or reads a text file.",
  [I, M], [("Writer._write_text_file", I), ("Reader._read_text_file", I), ("Material.prepare_file_dict", M)], ["Material(file_path=...) after Writer.write_file"])

p("C18", "YAML files written by the library read back as the same material",
  "Writing any table- or model-based material (including separate n and k parts on different grids and complex permittivity models) to .yml and loading it gives a material that evaluates to the same values (1e-8 relative) on the same range, with the same type, unit, model and metadata; the file uses the documented dataset names. Writing never drops or truncates table rows or coefficients, and metadata or specifications under a key of the user's own are stored under that key.",
  ["inputs", "histories"], "arbitrary tables, coefficients and ranges; every model class; up to 400 table rows and 17 coefficients",
  "No passing test writes or reads a YAML file.",
  [I, M, D], [("Writer._write_yaml_file", I), ("Reader._process_mat_dict/_process_mat_data_dict", I), ("dict_repr, dataset_to_dict, collapse_datasets", M)], ["Material(file_path=...) after Writer.write_file"])

p("C19", "Loaded tables keep one row per spectral value, in increasing order",
  "A table read from text or YAML may list its rows in any order; the material has every row whose spectral value is distinct, unmodified and sorted by spectral value, and of rows repeating a spectral value only the first in file order. A table in a YAML file ends at its first blank line and every number before it is preserved; blank lines in text files are ignored.",
  ["inputs"], "tables of up to 4 (5) rows of arbitrary numbers, with 2 or 3 columns, blank lines anywhere",
  "No test parses a table.",
  [I, M], [("_str_table_to_numeric, validate_table, fix_table", I)], ["resulting numeric table / Material data"])

p("C20", "Data files mean what the documented format says",
  "Loading a file assigns every documented metadata key to its field, treats unknown header lines as comment text, takes type, unit and range of each dataset from that dataset (falling back to the caller's defaults), maps 'formula 1'..'formula 9' and 'model <Name>' to the corresponding model with coefficients and range in file order, and combines separate n and k datasets into one material. A two-column text table is n and a three-column one is nk unless stated otherwise; unsupported extensions and data types are refused.",
  ["inputs", "configurations"], "all dataset combinations of up to two datasets, arbitrary numbers, header values of up to 4 (6) arbitrary characters",
  "The tests that read files need data files that are not in the repository and fail.",
  [I, M], [("Reader", I), ("Material._process_file_data/_process_formula_data", M)], ["Material attributes and get_nk_data"])

p("C21", "Effective media obey their mixing rules between the two constituents",
  "For any two materials, any filling fraction in [0, 1] and any spectrum, Simple gives (1-f) eps1 + f eps2, Maxwell-Garnett the Maxwell-Garnett formula with material 2 as inclusion, and Bruggeman a root of the Bruggeman equation, the one with non-negative imaginary part when one exists (real positive constituents give a value between them); f = 0 and f = 1 give back the pure materials for the first two. Fractions outside [0, 1] and singular Maxwell-Garnett mixtures raise ValueError.",
  ["inputs"], "arbitrary complex permittivities (at up to 2 spectral points), fractions and spectral units",
  "No test constructs an effective medium.",
  [M], [("Simple, MaxwellGarnett, Bruggeman", M)], ["get_permittivity of the mixture"])

p("C22", "Aliases identify one catalogue row each and look up that row's material",
  "After any sequence of alias registrations, an alias belongs to at most one row, a successful registration changes only that row's alias, a registration of an alias used by another row raises ValueError and changes nothing, and get_material(alias) loads the file of exactly the row carrying the alias, whatever the row labels or order of the table, using the row's type and unit where the file states none. An unknown alias or an identifier of another type raises ValueError.",
  ["histories", "inputs"], "catalogues of 3 rows with arbitrary row order/labels, sequences of up to 3 registrations with arbitrary alias strings",
  "The catalogue tests need the network and fail; even there one alias is looked up in an unpermuted table.",
  [C], [("Catalogue.register_alias, get_material", C)], ["Catalogue.database, path of the loaded file"])

p("C23", "A rebuilt catalogue describes every data file of every enabled module once",
  "Rebuilding lists each readable data file of each enabled module in exactly one row, with its name, path, metadata, its valid range in the stated type and unit, and n, k at the reference point (NaN exactly when the reference point is outside the range). Rebuilding one module keeps the other modules' rows unchanged, and asking for a disabled module raises ValueError.",
  ["inputs", "configurations", "histories"], "databases of up to 2 modules with files of arbitrary numeric content and arbitrary reference point, all enable/rebuild combinations",
  "The catalogue tests need the network and fail.",
  [C], [("Catalogue.build_catalogue, _read_text_db, _iterate_*", C)], ["Catalogue.database"])

p("C24", "Configuration is accepted only if complete and well typed; defaults always load",
  "A configuration is accepted exactly when its path is an existing directory, the file name is usable, the flags and module switches are booleans and the reference spectrum is a float with string type and unit; otherwise an error is raised. get_config() returns the user's file if present, else the package's, else valid defaults, and after write_config exactly what was stored; a file that is not valid YAML is reported, never replaced.",
  ["configurations", "inputs"], "every field independently of every Python type, every presence combination of the two config files",
  "Tests use the default configuration only.",
  [G], [("validate_config, check_type, get_config", G)], ["exceptions, returned dict"])

p("C25", "Interactive setup accepts only valid, confirmed answers",
  "For any sequence of typed answers, a prompt returns the default for an empty answer and otherwise the first answer its validator accepts, and never an invalid one; a confirmation is true only after y/yes and false only after n/no, re-asking on anything else. Installation enables exactly the modules that were confirmed and whose data is present (user data always), downloads only after a confirmation, and rebuilding the catalogue happens only after an explicit y.",
  ["inputs", "histories"], "all sequences of up to 4 answers of up to 3 arbitrary characters",
  "No test drives the prompts.",
  [U, C], [("ask, get_confirmation, ask_and_confirm, install_modules", U), ("rebuild_catalogue", C)], ["return values, prompts consumed"])

p("C26", "A saved catalogue reloads with the same rows, aliases and numbers",
  "Saving a catalogue and opening it again gives the same rows in the same order with the same aliases, metadata, paths, ranges and reference values, so alias lookups give the same materials across sessions.",
  ["inputs", "histories"], "arbitrary catalogues of up to 3 rows",
  "The catalogue tests need the network and fail.",
  [C], [("Catalogue.save_to_file, __init__", C)], ["catalogue.csv, Catalogue.database"])

p("C27", "Plots show the material's own values over its own range",
  "plot_nk_data and plot_permittivity draw exactly the real and imaginary parts that get_nk_data / get_permittivity return for the plotted spectrum, labelled with its type and unit. Without given values they show the whole valid range, in any type and unit; given axes are the ones drawn on.",
  ["inputs"], "tables, models and fixed values with arbitrary numbers and ranges, scalar, list and array arguments in several types and units",
  "No test plots.",
  [M], [("Material._plot_data, _prepare_plot_data", M)], ["matplotlib axes content"])

p("C28", "Materials compare equal exactly when metadata and quantity agree",
  "Comparing two materials, built in any way or read from a file, never fails and is symmetric: they are equal exactly when every metadata field agrees (a field only one of them has counts as empty in the other) and both describe the same quantity (n/k or permittivity). A material is never equal to an object of another type, always equal to itself, and != is the opposite of ==.",
  ["inputs", "configurations"], "all pairs of 11 kinds of material (fixed, table, model, read from txt/csv/yml), arbitrary metadata strings of up to 2 (3) characters, specifications and keys of the user",
  "The tests compare a few materials built the same way; comparing one with a material read from file failed on the original tree.",
  [M], [("Material.__eq__", M)], ["result of == and !="])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
