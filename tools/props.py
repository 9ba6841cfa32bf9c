import json
SC='pySC/core/simulated_commissioning.py'; CD='pySC/utils/classdef_tools.py'; ST='pySC/utils/sc_tools.py'; BM='pySC/core/beam.py'
RMO='pySC/lattice_properties/response_model.py'; RME='pySC/lattice_properties/response_measurement.py'
OT='pySC/correction/orbit_trajectory.py'; LO='pySC/correction/loco.py'; RF='pySC/correction/rf.py'; BBA='pySC/correction/bba.py'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
p("C01","Actual magnet fields are a fixed function of setpoints and errors",
"After magnets are updated, the normal and skew multipole fields of every updated magnet equal setpoint times (1 + calibration error), plus its static field offset, plus each systematic multipole scaled by the calibrated excitation of the component driving it, plus (normal dipole term only) the bending-angle error and the combined-function bending difference divided by the length, with shorter arrays zero-padded. Children of a split magnet get the same law with the setpoints, calibration and bending errors of their master; corrector-pass elements get kick angles equal to the resulting dipole terms; the maximum order always matches the field length. Nothing else in the lattice changes and a repeated update changes nothing.",
["inputs","configurations"],"every set of magnets, every length of the multipole arrays, every real value of setpoints, calibration errors, offsets, systematic multipoles, bending and combined-function errors",
"The tests never check a field after an update against the law; they fix one cell, one seed and only look at stored error values.",
[SC,CD],[("SimulatedCommissioning.update_magnets",SC),("SimulatedCommissioning._update_magnets",SC),("add_padded",CD)],
[("SetPointA/B, CalErrorA/B, PolynomA/BOffset, SysPolXFromY, BendingAngleError","inputs of the field law",SC),("PolynomA/B, MaxOrder, KickAngle","actual field",SC)],["element fields after update"])
p("C02","Cavity voltage, frequency and time lag follow their setpoints",
"After a cavity setpoint call or a cavity update, voltage, frequency and time lag of every addressed cavity equal setpoint times (1 + calibration error) plus offset. Absolute, relative and additive setpoint modes store exactly the given value, the given value times the present setpoint, and the given value plus the present setpoint; a single value applies to all addressed cavities, an unknown mode or a mismatched number of values is rejected without any change. Only the requested quantity's setpoint of the addressed cavities changes, no other lattice element is touched, and the caller's input arrays are not modified.",
["inputs","configurations"],"all cavities, all real setpoints (scalar or array, integer or float), all three quantities, all three modes, all error values",
"One example exercises a handful of default calls; the law over all values, modes and frames is never asserted.",
[SC,CD],[("SimulatedCommissioning.set_cavity_setpoints",SC),("SimulatedCommissioning.update_cavities",SC),("check_input_and_setpoints",CD)],
[("VoltageSetPoint/Offset/CalError and same for Frequency, TimeLag","cavity setpoints and errors",SC)],["cavity fields after the call"])
p("C03","Corrector setpoints are kicks, with correct sign, scaling and clipping",
"Setting dipole corrector setpoints in radians and reading them back returns the value set: the given value (absolute), the given value times the present setpoint (relative), or present plus given (additive), with positive values meaning positive kicks in both planes, stored as field integrated over the length except for thin corrector elements that store the kick directly. If the magnitude exceeds the limit of that plane the corrector goes to exactly that limit with the requested sign, otherwise it is not altered. Only the dipole term of the requested plane of the addressed correctors (and the fields derived from it) changes.",
["inputs","configurations"],"all correctors, both planes, thick and thin elements, every real kick, limit, length and present setpoint, all three modes, scalar and array input",
"Tests set and read a few absolute values on one cell; sign, clipping on both sides, both modes and the frame are over all reals.",
[SC,CD],[("SimulatedCommissioning.set_cm_setpoints",SC),("SimulatedCommissioning.get_cm_setpoints",SC),("check_input_and_setpoints",CD)],
[("SetPointA/B[0], CMlimit","corrector setpoint and limits",SC)],["stored setpoints and fields","values read back"])
p("C04","Magnet setpoints: modes, skew-quadrupole limit and dipole compensation",
"Setting magnet setpoints stores, in exactly the requested multipole component of the addressed magnets, the given value (absolute), the given value times the design value (relative) or the present plus the given value (additive); skew-quadrupole values beyond the magnet's limit are clipped to that limit with their sign, and the actual fields are updated accordingly. With dipole compensation, a horizontal corrector in a bending combined-function magnet is changed by the kick that cancels the bending change caused by the normal quadrupole change, and nothing happens for other components or magnets. Unknown modes and mismatched lengths are rejected, and all other setpoints stay untouched.",
["inputs","configurations"],"all magnets, orders, both field types, all three modes, every real value, limit and bending angle, with and without compensation",
"Tests only use default calls inside an example; modes, limits and compensation are quantified over all reals and magnet types.",
[SC,CD],[("SimulatedCommissioning.set_magnet_setpoints",SC),("SimulatedCommissioning._dipole_compensation",SC),("check_input_and_setpoints",CD)],
[("SetPointA/B, NomPolynomA/B, SkewQuadLimit, BendingAngle","setpoints, design values and limits",SC)],["stored setpoints and fields"])
p("C05","Registration initialises elements and keeps consistent bookkeeping",
"Registering BPMs, cavities, magnets or supports leaves the index lists sorted and free of duplicates and containing exactly the old and the new indices, merges the given uncertainties into those of each registered element without touching others, and initialises every error field of the registered elements to zero with setpoints and nominal values equal to the present design values. Corrector, skew-quadrupole, combined-function and split-magnet options are recorded only for the elements they were given for, with the given limits and children. Unknown keywords, unknown support types or badly shaped support index arrays are rejected before anything is changed.",
["inputs","histories"],"every sequence of registration calls, with any index arrays (duplicates, any order) and any subset of allowed keywords",
"Tests perform one or two registrations on one cell; the invariant must hold after every history of calls.",
[SC,CD,"pySC/core/classes.py","pySC/core/constants.py"],[("SimulatedCommissioning.register_bpms",SC),("SimulatedCommissioning.register_cavities",SC),("SimulatedCommissioning.register_magnets",SC),("SimulatedCommissioning.register_supports",SC),("update_double_ordinates",CD)],
[("ORD, SIG","index lists and uncertainties",SC)],["ORD, SIG and element fields"])
p("C06","Design lattice, caller's lattice and copies stay isolated from the machine",
"No operation on the simulated machine (registration, error application, setpoints, updates, corrections, model building) changes the design lattice or the lattice object the user passed in. A freshly built machine and a deep copy share no element storage, neither between their elements nor with the lattice they come from. A deep copy carries the same machine and design lattice, and copy and machine never influence each other. The model lattice derived from the machine carries the present magnet and cavity setpoints with the dipole terms zeroed and no errors, and building or modifying it never changes the machine.",
["histories","inputs"],"every history of operations on machine, copy or model, for every lattice (also one listing the same element object many times)",
"Tests check isolation for a single assignment on one cell; aliasing shows only for particular histories.",
[SC,RMO],[("SimulatedCommissioning.__init__",SC),("SimulatedCommissioning.very_deep_copy",SC),("SCgetModelRING",RMO)],
[("RING, IDEALRING","machine and design lattice",SC)],["all element fields of all lattices"])
p("C07","BPM readings are the documented function of the beam and the BPM errors",
"A BPM reading is the average position of the surviving particles, rotated by the total roll (own plus support), minus the total offset (own plus support), times (1 + calibration error), plus noise (orbit noise in orbit mode, turn-by-turn noise otherwise; at most two sigma, divided by the transmission); its sum signal is the surviving fraction times (1 + sum-signal error draw). If that sum signal falls below one minus the allowed loss, both planes of the position read not-a-number. Shots are averaged with weights given by their sum signal, readings are ordered turn by turn in BPM order for exactly the requested registered BPMs, and pseudo-orbit mode additionally averages over turns.",
["inputs","configurations"],"all particle distributions with arbitrary losses, all BPM errors, BPM subsets, numbers of particles, turns and shots, all tracking modes",
"Tests compare a few readings of one seed on one ring; losses, subsets and multiple shots are barely combined.",
[BM],[("bpm_reading",BM),("_real_bpm_reading",BM),("_tracking",BM),("_reshape_3d_to_matlab_like_2d",BM),("_only_registered_bpms",BM)],
[("Noise, NoiseCO, Offset, SupportOffset, Roll, SupportRoll, CalError, SumError","BPM errors",BM)],["returned readings and sums"])
p("C08","Random errors respect their cut-off and go to exactly the configured fields",
"Every truncated random draw has the requested shape and never exceeds its cut-off; an error with uncertainty sigma applied to an element never exceeds cut-off times sigma, using the error's own cut-off if one was given and the call's otherwise. Error application assigns a drawn value to exactly the fields that have uncertainties (bending-angle uncertainties become bending-angle errors, BPM noise levels are copied unchanged), sets the injected trajectory to the ideal one plus a bounded static error and copies the jitter level. Elements without uncertainties keep their values, and afterwards magnet, cavity and support states are up to date with the new errors.",
["inputs","configurations","histories"],"every shape, cut-off, random stream, set of registered elements and uncertainties",
"Tests pin the outcome of one seed; the cut-off must hold for every random stream and the assignment for every configuration.",
[ST,CD,SC],[("randnc",ST),("randn_cutoff",CD),("SimulatedCommissioning.apply_errors",SC)],
[("SIG","uncertainties",SC)],["element error fields, injection settings"])
p("C09","Support misalignments are interpolated onto elements",
"The offset at any location is the sum over support types of the straight line between the start and end offsets of the structure covering it, with girders riding on plinths riding on sections, zero where there is no structure, including structures that cross the ring end; the roll is the sum of the start-point rolls of the covering structures, and pitch and yaw are the slopes of the total offset between the ends of the innermost structure. Updating supports writes exactly these values into the magnets (three-dimensional) and BPMs (transverse offset and roll only), recomputes the magnet transformations and passes them to split children. When errors are applied, explicit pitch and yaw tilt the ends symmetrically about the centre, otherwise pitch and yaw are set from the end offsets.",
["inputs","configurations"],"all support layouts (including wrap-around), all end offsets and rolls, all element positions",
"Tests check one section on one cell; nesting, wrap-around and slopes are never checked.",
[SC,CD],[("SimulatedCommissioning.support_offset_and_roll",SC),("s_interpolation",CD),("SimulatedCommissioning.update_supports",SC),("SimulatedCommissioning._apply_support_alignment_error",SC)],
[("SectionOffset/Roll, PlinthOffset/Roll, GirderOffset/Roll, SupportOffset, SupportRoll","support and element misalignment",SC)],["SupportOffset, SupportRoll, T1, T2"])
p("C10","Misalignments become the correct entrance and exit transformations",
"The entrance and exit transformations of a misaligned magnet are the linearised rigid-body coordinate change for its total offset and total roll, pitch and yaw (own plus support), for its length and bending angle. Zero misalignment gives identities and zero shifts, pure transverse offsets give opposite shifts at both ends, a pure roll gives inverse rotations, and a misaligned straight field-free element leaves every linear trajectory unchanged.",
["inputs"],"all offsets, rotations, lengths and bending angles",
"Tests compare a handful of numeric cases against stored numbers.",
[ST],[("update_transformation",ST),("rotation",ST),("_translation_vector",ST),("_r_matrix",ST)],
[("T1, T2, R1, R2","element transformations",ST)],["element.T1, T2, R1, R2"])
p("C11","Circumference scaling reaches the requested length using drifts only",
"Scaling the circumference makes the total length exactly the requested one (absolute) or the requested multiple of the present one (relative). All drift lengths change by one common factor and no other element or field changes; an unknown mode is rejected without any change.",
["inputs"],"every lattice with at least one non-zero drift, every target",
"No test covers it except through one seeded error application.",
[ST],[("scale_circumference",ST)],[("Length","element length",ST)],["total length and element lengths"])
p("C12","Pseudo-inverse keeps, drops, regularises and damps singular values as asked",
"The pseudo-inverse equals V D U^T over the kept singular values, where the requested number of smallest singular values and all zero ones are dropped, D is damping/s without and damping*s/(s^2+alpha^2) with regularisation. Without options on a full-rank matrix it is the Moore-Penrose inverse, and the input matrix is never changed.",
["inputs"],"all real matrices, all numbers of removed values, all alpha and damping",
"Tests compare three small matrices with numpy.",
[ST],[("pinv",ST)],(),["returned matrix"])
p("C13","Measurement procedures leave the machine as they found it",
"Dispersion measurement, closed-orbit response measurement, RF phase and frequency scans, tune scans that fail, trajectory-based alignment scans and the phase-advance and injection scans used by them restore every magnet, corrector and cavity setpoint, the injected trajectory and the number of turns after measuring, for whatever the beam does during the measurement, also when a corrector clips at its limit. Besides restoring, only the documented correction (if any) is applied: one added time-lag or frequency step, the best tune-scan setting, or BPM offsets.",
["inputs","histories"],"every sequence of BPM readings the machine may return, every present setpoint, limit and scan range",
"Tests run a few procedures once with one lattice and do not compare the state before and after.",
[RME,LO,RF,"pySC/correction/tune.py",BBA],[("dispersion",RME),("measure_closed_orbit_response_matrix",LO),("correct_rf_phase, correct_rf_frequency",RF),("tune_scan","pySC/correction/tune.py"),("_data_measurement_tbt, _phase_advance_injection_scan, _scale_injection_to_reach_bpms",BBA)],
[("setpoints, INJ.Z0, INJ.nTurns","machine state",SC)],["machine state after the procedure"])
p("C14","Orbit and trajectory corrections apply exactly minus the pseudo-inverse step",
"Each correction step adds, to exactly the given horizontal and vertical correctors, minus the pseudo-inverse response matrix applied to reading minus reference (lost readings count as zero; with dispersion, the RF frequency gets the last entry times its scale); first-turn threading only uses correctors upstream of the last BPM reached, and stitching and balancing steer the second turn towards the first. Mismatched response matrix, reference or number of turns is rejected before the machine is touched, lost transmission raises an error, and the procedure reports success only after its documented criterion was met. The caller's reference and index arrays are never modified.",
["inputs","histories"],"every response matrix, reference, BPM and corrector selection and every sequence of readings, including losses",
"The example test runs the chain once on one seed; individual steps and rejections are not checked.",
[OT],[("first_turn, stitch, balance, correct",OT),("_check_ords, _get_last_cm, _is_repro",OT)],[("corrector setpoints","correction knobs",OT)],["corrector setpoints after each step, raised errors"])
p("C15","Weighted and circular statistics are mathematically correct and robust",
"Weighted means, rms values and circular means equal their textbook definitions with weights one over error squared along any axis, invariant under permutation of the data and under common rescaling of the errors, the circular mean also under adding whole periods; not-a-number data are ignored by the nan variants. Errors containing zeros or not-a-number fall back to equal weights. The effective sample size is (sum w)^2 / sum w^2 and is never reported below two.",
["inputs"],"all finite data, errors, axes, periods and shapes",
"Tests use a few hand-made arrays.",
["pySC/utils/stats.py"],[("circular_mean, weighted_mean, weighted_error, weighted_rms, weights_from_errors, effective_sample_size, unbias_variance","pySC/utils/stats.py")],(),["returned values"])
p("C16","Cavity and radiation switching touches exactly the right elements",
"Switching radiation converts exactly the tracking methods of the known magnet integrators between their radiating and non-radiating versions and switching cavities converts exactly the addressed elements that have a frequency between accelerating and identity; everything else is unchanged. Off wins when both on and off are requested, repeating a request changes nothing, on after off gives the fully on state, and unknown requests are rejected without change.",
["inputs","histories"],"every lattice with any tracking methods, every combination and order of requests",
"Tests check one short lattice.",
["pySC/core/lattice_setting.py"],[("switch_cavity_and_radiation, switch_rf","pySC/core/lattice_setting.py")],[("PassMethod","tracking method","pySC/core/lattice_setting.py")],["PassMethod of all elements"])
p("C17","Beam-based alignment only applies trustworthy offsets, in the right place",
"A measured BPM offset is added to the offset of exactly that BPM and plane if and only if it is a number, not larger than the outlier limit and not smaller than the confidence multiple of its own error; every other BPM offset is unchanged. The idealised alignment replaces exactly the flagged BPM offsets by the centre of the given magnet (relative to the BPM support) plus a draw bounded by twice the given or the estimated rms error, the estimate being taken from the unflagged ones.",
["inputs"],"all selections of BPMs and magnets, all measured offsets and errors including not-a-number",
"The example runs it once; thresholds, planes and frames are not checked.",
[BBA],[("apply_bpm_offsets, is_bba_errored, fake_bba, _get_bpm_offset_from_mag",BBA)],[("Offset","BPM offset",BBA)],["BPM offsets after the call"])
p("C18","LOCO parameters, objective and corrections are laid out consistently",
"The fit-parameter mask selects exactly the requested groups in the order quadrupoles, correctors, BPMs; the objective is the weighted difference between the measured-minus-model residual and the masked sum of sensitivity matrices times parameters; the sensitivity of a corrector (BPM) parameter is the model response restricted to that column (row), and that of a quadrupole is the finite difference of the model response. Applying fitted corrections changes exactly the listed quadrupoles (individually or per family) by minus the fitted value in the requested component.",
["inputs"],"all residuals, sensitivity matrices, weights, parameter selections and corrections",
"One end-to-end fit on one ring is tested.",
[LO],[("objective, _get_parameters_mask, calculate_jacobian, generating_quads_response_matrices, set_correction, get_inverse",LO)],(),["returned arrays and setpoints"])
p("C19","Injected bunches and tracking modes follow the injection settings",
"A generated bunch has the requested number of particles around the injected trajectory plus at most two sigma of the jitter, the same jitter for all particles of a bunch; a single particle sits exactly at that centroid, and otherwise deviations follow the given beam sigma matrix; the user's post-processing is applied last and the injection settings are not modified. Only known tracking modes are accepted, and orbit mode always implies one turn and one particle. Beam transmission reports, for each turn, the fraction of particles still alive and counts the turns whose loss stays below the allowed one.",
["inputs","configurations"],"all beam sizes (also correlated), jitter levels, particle numbers, loss patterns and modes",
"Tests look at one seed and a diagonal or zero beam size.",
[BM,"pySC/core/classes.py"],[("generate_bunches, beam_transmission",BM),("Injection.trackMode","pySC/core/classes.py")],[("INJ","injection settings","pySC/core/classes.py")],["returned coordinates, transmission"])
p("C20","RF phase and frequency correction step is the fitted zero crossing",
"The applied time-lag step lies within half an RF wavelength and brings the fitted sinusoidal energy response to zero, and the applied frequency step is the zero of the fitted line; an insignificant measurement applies no step and a fit without zero crossing or too few valid points raises an error without a change. The turn-by-turn energy shift is the slope of the mean horizontal position change relative to the first turn. Reported phase errors lie within plus or minus 180 degrees and equal the offset between orbit and injection modulo one period.",
["inputs","histories"],"all readings returned by the beam, all frequencies, step counts and scan ranges",
"The example runs each correction once and checks nothing about the step.",
[RF],[("correct_rf_phase, correct_rf_frequency, phase_and_energy_error, _fold_phase, _get_tbt_energy_shift, _check_data",RF)],[("TimeLagSetPoint, FrequencySetPoint","cavity setpoints",RF)],["cavity setpoints after the call, returned errors"])
p("C21","Multipole error tables are stored per component and accumulate correctly",
"Setting systematic multipole errors stores for each addressed magnet, for both the normal and the skew plane, that plane's column of the table with the driving component removed, under the requested driving order and plane, keeping previously stored entries of other orders and leaving the caller's table and all other magnets unchanged. Random multipole errors add to the existing field offsets of each addressed magnet, per plane, an independent draw bounded by twice the table entries. Wrongly shaped tables are rejected without change.",
["inputs","histories"],"all tables, orders, planes, magnets and sequences of calls",
"No test looks at the stored multipoles.",
[SC,CD],[("SimulatedCommissioning.set_systematic_multipole_errors, set_random_multipole_errors",SC),("add_padded",CD)],[("SysPolXFromY, PolynomA/BOffset","multipole errors",SC)],["stored multipole fields"])
p("C22","Model response matrices and dispersion are exact finite differences",
"Each column of the model response matrix is (tracked response with exactly one corrector kicked by the step, starting from the unperturbed model, minus unperturbed response) divided by the step, in the order horizontal then vertical correctors, with a positive kick in the plane of the corrector; rows are horizontal then vertical positions, turn by turn. The model dispersion shifts the frequency of all given cavities by the step and divides by it. Neither changes the machine or the design lattice, the design or the setpoint-derived model is used as requested, and an unperturbed response without valid orbit is rejected.",
["inputs","configurations"],"all lattices, BPM and corrector selections, thick and thin correctors, steps and turns",
"Tests compare one small selection with stored numbers.",
[RMO],[("SCgetModelRM, SCgetModelDispersion, orbpass",RMO)],(),["returned matrices, lattices at every tracking call"])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P:
    jsonschema.validate(d,sch); assert len(d['title'])<=80,d['id']
print(len(P))
