#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run after editing; both are committed)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append(d)


SMOKE = ("The existing tests are smoke tests on one parameter set each: they check that a call returns (or compare two calls "
         "loosely), so a wrong value, sign, unit or boundary elsewhere in the input space goes unseen. ")

prop("P01", "Single-element responses are the sampled Rayleigh integral of the element",
     "For every geometry, grid, sampling and medium, the response of a rectangular, circular, line, cylindrical or spherical "
     "element at an observation point is the sum over the cells of its surface grid of (velocity x cell area) / (2 pi r dt), "
     "added to the one output sample nearest to that cell's travel time minus the point's start time. Each observation point uses "
     "its own coordinates, its own start time (or the common one) and its own output column. With absorption enabled the same "
     "strength, distance and sample index go into the absorption filter instead.",
     ["inputs"], "All element sizes, curvatures (both signs), grid steps, sampling periods, sound speeds, velocities, absorption values, "
     "delays (scalar or vector) and observation points.",
     SMOKE + "The formula must hold for every cell of every grid.",
     ["src/dreamrect.cc", "src/dreamcirc.cc", "src/dreamline.cc", "src/dreamcylind.cc", "src/dreamsphere.cc"],
     [("surface quadrature loops (lossless and lossy variants)", "dream*_serial in src/dream{rect,circ,line,cylind,sphere}.cc"),
      ("per-point dispatch of coordinates, delay and output column", "smp_dream* in the same files")],
     ["output matrix h"])
prop("P02", "Focused single transducers delay every cell by the focusing law",
     "For a focused rectangular or circular transducer every surface cell contributes as in the unfocused case, but at its travel "
     "time plus a focusing delay equal to the longest path to the focus minus the cell's own path, over the sound speed. The "
     "path is taken in x, in y, radially or separably as the chosen focusing method says, and is zero when focusing is off.",
     ["inputs"], "All aperture sizes, focal distances, focusing methods, grid steps, media and observation points.",
     SMOKE, ["src/dreamrect_f.cc", "src/dreamcirc_f.cc", "src/arr_functions.cc"],
     [("focused quadrature loops", "dreamrect_f_serial, dreamcirc_f_serial"), ("focusing law", "focusing() in src/arr_functions.cc")])
prop("P03", "Array responses superpose translated, weighted, delayed elements",
     "The response of a rectangular-, circular- or cylindrical-element array is the sum over all its elements of that element's "
     "response translated to the element position, scaled by its apodization weight and with its focusing and steering delays "
     "added to its propagation delay. Focusing, steering and apodization follow the documented laws for each selectable method, "
     "measured against the outermost element, and user-supplied focusing delays and weights are taken per element.",
     ["inputs"], "All element counts and positions, focusing/steering/apodization methods and parameters, and observation points.",
     SMOKE + "Method combinations alone exceed what is tested.",
     ["src/dream_arr_rect.cc", "src/dream_arr_circ.cc", "src/dream_arr_cylind.cc", "src/arr_functions.cc"],
     [("superposition loop over elements", "dream_arr_*_serial"), ("focusing, beam steering, apodization, array centre",
                                                                  "src/arr_functions.cc")])


prop("P04", "Annular array responses are weighted, delayed ring responses",
     "The response of an annular array is the sum over its rings of (outer disc response minus inner disc response), each disc "
     "computed as for a circular element of that radius, where the first radius alone forms the centre disc and a first radius of "
     "zero means no centre disc. Each ring is scaled by its apodization weight (all documented apodization laws, evaluated at the "
     "ring's middle radius relative to the outermost ring's) and shifted by its focusing delay rounded to whole samples plus one "
     "sample; samples shifted out of the response are dropped, never wrapped or written elsewhere.",
     ["inputs"], "All radius vectors, focusing and apodization methods and parameters, positive and negative user delays, sampling, "
     "media, absorption and observation points.",
     SMOKE + "Ring bookkeeping goes through three scratch arrays whose indices depend on the number of radii.",
     ["src/dream_arr_annu.cc", "src/dreamcirc.cc"],
     [("disc, ring and superposition loops", "ArrAnnu::dream_arr_annu_serial, resp_annular, superpos_annular"),
      ("ring delay and weight", "ArrAnnu::focusing_annular, apodization_annular, annular_disc_radii")], ["output matrix h"])

prop("P05", "Absorption applies the exponential-attenuation filter to each pulse",
     "Adding an absorbed pulse of strength ai that has travelled r mm and arrives at sample it adds ai times the inverse DFT (scaled "
     "by 1/length, exactly once) of the spectrum exp(-alpha r f) with the Aki-Richards minimum-delay phase and the linear phase of "
     "sample it; the DC bin is 1. Every bin up to Nyquist is filled, and the pulse goes to the requested element's own row of the "
     "output without touching any other.",
     ["inputs"], "All response lengths (odd and even), sampling periods, absorption values, distances, arrival samples, strengths and "
     "element numbers.",
     SMOKE + "Filter bins and normalisation differ between odd and even lengths.",
     ["src/attenuation.cc", "include/attenuation.h", "include/fft.h"],
     [("spectrum, inverse transform and accumulation", "Attenuation::att"), ("normalised inverse transform", "FFT::ifft")],
     ["h after Attenuation::att"])

prop("P06", "Delay-and-sum images sum the sample at the travel time of every A-scan",
     "Every image point of DAS<double> and DAS<float> is the sum over all A-scans of the sample in progress at the travel time "
     "transmitter to point to receiver plus the system delay (scalar, or that point's own entry); SAFT uses twice the one-way path and "
     "delay. For row-column arrays a stripe's distance uses the nearest point of the stripe, whose ends are the outermost elements of "
     "the crossed set. A-scans are ordered transmitter by transmitter, samples outside the A-scan contribute nothing, and an empty "
     "receiver set selects SAFT.",
     ["inputs"], "All array geometries and element counts (rows and columns different), A-scan lengths, image grids, delays, sound speeds "
     "and the four beamformers in both precisions.",
     SMOKE, ["extra_src/das.cc", "include/das.h"],
     [("beamformers", "DAS<T>::das_saft_serial, das_tfm_serial, das_rca_serial_coltx, das_rca_serial_rowtx"),
      ("per-point dispatch", "DAS<T>::smp_das, DAS<T>::das")], ["Im"])

prop("P07", "Convolution functions give the linear convolution of every column",
     "Each output column of conv_p, fftconv_p, fftconv_ola and FFTConvP is the full linear convolution (A_M+B_M-1 samples) of that "
     "column of A with the same column of B, or with B itself when B is a vector; the FFT variants zero-pad, multiply and scale by 1/length. "
     "Overlap-add sums the block convolutions at their offsets with no sample lost at block or column ends, and sum_fftconv sums over "
     "its L responses and signals. In-place modes '=', '+=' and '-=' replace, add to and subtract from the existing output.",
     ["inputs"], "All signal lengths, column counts, vector and matrix second operands, block lengths and in-place modes.",
     SMOKE + "Block and column bookkeeping depends on length relations that no single test exercises.",
     ["extra_src/conv.cc", "extra_src/fftconv.cc", "extra_src/fftconv_p.cc", "extra_src/oct_conv_p.cc", "extra_src/oct_fftconv_p.cc",
      "extra_src/oct_fftconv_ola.cc", "extra_src/oct_sum_fftconv.cc", "include/fft.h"],
     [("convolution kernels", "conv, fftconv, add_fftconv"), ("column workers", "smp_dream_conv, smp_dream_fftconv, "
       "smp_dream_fftconv_ola, smp_dream_sum_fftconv, FFTConvP::smp_dream_fftconv")], ["output matrix Y"])


prop("P08", "Analytic impulse responses match their closed forms",
     "rect_sir, circ_sir and scirc_sir give at every time sample the closed-form velocity potential response of a rectangular or circular "
     "piston: v*cp times the fraction of the arc of radius cp*t around the projected observation point that lies on the piston (over "
     "2*pi), i.e. the plateau, arc-cosine and zero segments between the arrival times of the near, far and edge points, on, inside and "
     "outside the aperture. scirc_sir integrates that response over each sample interval. Each observation point uses its own "
     "coordinates, delay (or the common one) and output column.",
     ["inputs"], "All piston sizes, observation points (inside, outside and on the axis), sampling periods, sound speeds, velocities, delays "
     "and response lengths.", SMOKE + "The segments depend on the position of the point relative to the edges.",
     ["extra_src/rect_sir.cc", "extra_src/circ_sir.cc", "extra_src/scirc_sir.cc", "extra_src/oct_circ_sir.cc", "extra_src/oct_scirc_sir.cc"],
     [("closed forms", "RectSir::rect_sir_serial, circ_sir, scirc_sir"), ("per-point dispatch", "smp_dream_circ_sir, smp_dream_scirc_sir, "
       "RectSir::smp_rect_sir")], ["output matrix h"])


prop("P09", "The OpenCL kernels compute what the CPU code computes",
     "Each OpenCL kernel (das_saft, das_tfm, das_rca_coltx, das_rca_rowtx in single and double precision, dreamrect, dreamcirc and rect_sir) leaves in the "
     "output, for every observation point, what the CPU code computes for the same arguments (one scalar delay), in its own precision, and touches nothing "
     "outside its arrays and its own part of the output. The host code (cl_das, cl_dreamrect, cl_dreamcirc, cl_rect_sir, DAS::init_opencl) starts the "
     "kernel for the type of imaging (SAFT when there are no receivers) with exactly the arguments it was given, buffers and transfers of exactly "
     "the size of the arrays, and one work item per observation point, for any number of observation points.",
     ["inputs"], "All geometries, sizes, types of imaging and numbers of observation points.",
     "The tests run without a GPU, so no kernel is ever run, and the build without OpenCL does not compile any of it.",
     ["opencl/", "include/das.h"],
     [("kernels", "opencl/das_float.cl, das_double.cl, dreamrect.cl, dreamcirc.cl, rect_sir.cl"),
      ("host", "DAS<T>::cl_das, DAS<T>::init_opencl, Rect::cl_dreamrect, Circ::cl_dreamcirc, RectSir::cl_rect_sir")], ["GPU images and responses"])


prop("P10", "Every column is processed by exactly one thread, whatever the thread count",
     "Every threaded operation (the response functions, rect_sir, circ_sir, scirc_sir, das, the convolution family, copy_p and add_p) gives "
     "each column (observation point) to exactly one worker call, for any number of columns and cores and any DREAM_NUM_THREADS, 0 included, "
     "and never starts more threads than there are columns. Each worker gets its own record, completely filled in before it starts, and "
     "processes exactly the range in it. Every started thread is joined before the record is freed and the function returns.",
     ["inputs", "schedules"], "All column counts, core counts and thread settings, and all interleavings of the threads.",
     "The tests run with the machine's core count and a handful of columns; the division depends on the relation of the two.",
     ["src/", "extra_src/rect_sir.cc", "extra_src/das.cc", "extra_src/fftconv_p.cc", "extra_src/oct_conv_p.cc", "extra_src/oct_fftconv_p.cc",
      "extra_src/oct_fftconv_ola.cc", "extra_src/oct_sum_fftconv.cc", "extra_src/oct_add_p.cc", "extra_src/oct_copy_p.cc",
      "extra_src/oct_circ_sir.cc", "extra_src/oct_scirc_sir.cc"],
     [("launch loops", "the loops over thread_n in every entry point"), ("workers", "smp_* functions")], ["all output columns"])


prop("P11", "copy_p and add_p write exactly the selected block",
     "copy_p(A, r, k, B) sets rows r(1)..r(2) of columns k(1)..k(2) of A to the elements of B in the same order, and add_p adds them, in place. "
     "Nothing outside that block of A is written, B is not changed, and rows of B beyond the selected number of rows are ignored.",
     ["inputs"], "All matrix sizes and all selections of rows and columns.",
     "No test runs the two functions.",
     ["extra_src/oct_copy_p.cc", "extra_src/oct_add_p.cc"],
     [("workers", "smp_dream_copy_p, smp_dream_add_p"), ("arguments", "Fcopy_p, Fadd_p")], ["matrix A"])


prop("P12", "The out-of-range status reaches the caller and the error level is obeyed",
     "Every response function, array function and das returns 'none' exactly when no sample of any thread fell outside the response or data "
     "vector, and otherwise the status of the caller's error level, whatever the number of threads and elements. At ignore and warn, "
     "out-of-range samples do not cut the computation short. At stop, the thread that meets one evaluates no further observation point and "
     "tells the other threads to stop.",
     ["inputs", "schedules"], "All inputs, all error levels, all numbers of threads and which of them meet out-of-range samples.",
     "The tests do not look at the status; a lost one shows only when a particular thread or element is the one out of range.",
     ["src/", "extra_src/das.cc", "src/dream_error.cc"],
     [("reports", "calls of dream_out_of_bounds_err"), ("workers", "smp_* functions"), ("joins", "the loops after the launch loops")],
     ["returned SIRError"])

prop("P13", "Octave response functions take exactly the documented arguments",
     "The eleven Octave response functions compute exactly when the number, shapes and words of the arguments are the documented ones. They "
     "then hand every value, count, option, focus delay and weight to the computation as documented, also when an argument is stored as a "
     "range or in single precision. The first value returned is the computed nt x No matrix, the second, when asked for, the status.",
     ["inputs"], "All argument lists whose numeric arguments convert to real matrices; all shapes, words and numbers of outputs.",
     "The tests call each function with one or two well-formed argument lists of double matrices.",
     ["include/arg_parser.h", "oct/"],
     [("parser", "ArgParser"), ("bindings", "DEFUN_DLD functions in oct/oct_dream*.cc")],
     ["computing method's arguments", "returned values"])


prop("P14", "Python response functions take exactly the documented arguments",
     "The eleven functions of the Python modules compute exactly when the shapes and words of their arguments (positional or by documented "
     "name) are the documented ones, for vectors given as rows, columns or one-dimensional arrays. They then hand every value, count, "
     "option, focus delay and weight to the computation as documented, and return the computed nt x No array.",
     ["inputs"], "All arguments pybind11 converts, of at most two dimensions; all shapes and words.",
     "The tests call each function with one or two well-formed argument lists of two-dimensional arrays.",
     ["include/arg_parser_python.h", "python/src/"],
     [("parser", "ArgParser"), ("bindings", "py_dream* functions in python/src/"), ("modules", "PYBIND11_MODULE in python/src/")],
     ["computing method's arguments", "returned array"])


prop("P15", "Every computation stays inside the arrays it was given and those it makes",
     "For all counts, geometries, delays, samplings, FFT lengths and thread ranges, every element that a response, focusing, delay-and-sum, "
     "convolution, add/copy or impulse-response computation reads or writes lies inside the array it belongs to. The arrays are the "
     "observation points, element positions, delays, weights and outputs of the documented sizes, and the work arrays of the sizes they were "
     "made with. Samples, blocks or indices that would fall outside are left out or refused first.",
     ["inputs"], "All sizes (including empty matrices), values and thread ranges that the interfaces let through; in-place and returning forms; all modes.",
     "An access just outside an array usually changes nothing that a test compares, and depends on one combination of sizes or on a travel time at the edge of the window.",
     ["src/", "extra_src/das.cc", "extra_src/fftconv.cc", "extra_src/conv.cc", "include/fft.h"],
     [("window tests", "it < nt / it < a_scan_len tests in the serial kernels"), ("sizes of the work arrays", "FFTVec, FFTCVec, malloc in the workers"),
      ("pointer advance per column", "smp_* workers")],
     ["accessed addresses"])


prop("P16", "Threads never touch data another thread writes",
     "Whatever the number of threads and their schedule, a worker of a parallel computation writes only memory it allocated itself, its own record, "
     "atomic flags, and its own columns of an output. It reads nothing that another worker writes, calls no function that must not run in several "
     "threads at once (such as an FFTW planner), and the caller leaves shared data alone until all threads are joined.",
     ["inputs", "schedules"], "All 24 launch sites, all sizes and thread counts, all interleavings.",
     "A race shows only under particular interleavings on several cores, and the tests compare results loosely.",
     ["src/", "extra_src/", "include/attenuation.h", "include/fft.h"],
     [("workers", "smp_* functions"), ("per-thread work arrays", "FFTVec / FFTCVec in the workers"), ("records", "D[thread_n]"),
      ("shared absorption filter", "Attenuation::att in src/attenuation.cc")],
     ["memory accesses of workers and of the caller between launch and join"])

prop("P17", "das in Octave and Python forwards its arguments, whatever was called before",
     "In both precisions, das starts the computation exactly for the documented arguments, with each of them in its documented role, and returns the "
     "computed image with one row per observation point. The object kept between calls is used only if it was made for the method, lengths and element "
     "counts of this call, whatever the earlier calls were. The data of an argument is used only while a matrix object holds it.",
     ["inputs", "histories"], "All argument lists, and all sequences of earlier calls, of das in Octave (double, single) and Python (das, das_f).",
     "An object kept from an earlier call gives a wrong image only for particular pairs of calls; the tests make one call per process.",
     ["extra_src/oct_das.cc", "python/include/py_das.hpp", "python/src/py_das.cc", "include/das.h", "include/arg_parser.h", "include/arg_parser_python.h"],
     [("Octave binding", "DEFUN_DLD das in extra_src/oct_das.cc"), ("Python binding", "py_das in python/include/py_das.hpp"),
      ("reuse of the kept object", "DAS::das_setup_has_changed"), ("parameters of the object", "DAS::DAS")],
     ["image and status returned", "errors raised"])


prop("P18", "Tools in Octave and Python hand their threads exactly the documented work",
     "conv_p, fftconv_p, fftconv_ola, sum_fftconv, circ_sir, scirc_sir, copy_p, add_p, rect_sir, dream_att, dream_apodwin and Python's fftconv_p start "
     "their work exactly for the documented arguments, with each in its documented role: vectors of either shape, one or many delays, in-place modes, "
     "wisdom strings. What is returned is the matrix worked on, of the documented size, and in place the caller's own. The data of an argument is used "
     "only while a matrix object holds it.",
     ["inputs"], "All argument lists of these functions in Octave and of fftconv_p in Python.",
     "The tests use one shape per argument; optional arguments, row vectors, in-place forms with wisdom and rejected calls are combinations they do not try.",
     ["extra_src/oct_conv_p.cc", "extra_src/oct_fftconv_p.cc", "extra_src/oct_fftconv_ola.cc", "extra_src/oct_sum_fftconv.cc", "extra_src/oct_circ_sir.cc",
      "extra_src/oct_scirc_sir.cc", "extra_src/oct_copy_p.cc", "extra_src/oct_add_p.cc", "oct/oct_dream_att.cc", "oct/oct_dream_apodwin.cc", "extra_src/oct_rect_sir.cc",
      "python/src/py_fftconv_p.cc"],
     [("records given to threads", "DEFUN_DLD conv_p, fftconv_p, fftconv_ola, sum_fftconv, circ_sir, scirc_sir"),
      ("block copies", "DEFUN_DLD copy_p, add_p"), ("direct tools", "DEFUN_DLD rect_sir, dream_att, dream_apodwin"), ("Python", "py_fftconv_p")],
     ["matrices returned or changed in place", "errors raised"])


prop("P19", "Ctrl-C stops a running computation, is reported, and keeps working afterwards",
     "While a function called from Octave or Python has threads at work, an interrupt (in Octave also one that Octave has taken itself) clears the run "
     "flag those threads read: every thread then starts no further column, and the call reports it instead of returning an incomplete result as complete. "
     "The flag is set before the first thread starts and not again after it, so that neither an earlier nor a current interrupt is mixed up. "
     "When the call is over, on every way out, each signal has the handler it had before it.",
     ["schedules", "signals at any moment", "inputs"],
     "All functions of the Octave and Python bindings that start threads (CPU).",
     "No test sends a signal; when it arrives relative to the threads, and which way the call then takes, cannot be enumerated by running it.",
     ["oct/oct_dream*.cc", "python/src/py_dream*.cc", "python/include/py_das.hpp", "python/include/py_fftconv_p.hpp", "src/dream*.cc", "extra_src/das.cc",
      "extra_src/oct_das.cc", "extra_src/oct_rect_sir.cc", "extra_src/rect_sir.cc", "extra_src/fftconv_p.cc", "extra_src/oct_conv_p.cc",
      "extra_src/oct_fftconv_p.cc", "extra_src/oct_fftconv_ola.cc", "extra_src/oct_sum_fftconv.cc", "extra_src/oct_add_p.cc", "extra_src/oct_copy_p.cc",
      "extra_src/oct_circ_sir.cc", "extra_src/oct_scirc_sir.cc"],
     [("handlers and flags", "Rect::abort and its namesakes, sighandler, running"), ("bindings", "std::signal calls of the DEFUN_DLD and py_ functions"),
      ("threads", "smp_dream_* and their namesakes: loop over the columns")],
     ["columns computed after the signal", "error raised", "handler of SIGINT, SIGABRT and SIGTERM after the call"])


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    sys.path.insert(0, HERE)
    import importlib
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in NA:
            na.append({"property": i, "reason": NA[i]})
            continue
        if not os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
            na.append({"property": i, "reason": "the check for this property is still under construction"})
            continue
        m = importlib.import_module("checks." + i.lower())
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
                       "technique": m.TECHNIQUE, "level": m.LEVEL, "level_note": m.NOTE})
    man = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


NA = {}

if __name__ == "__main__":
    main()
