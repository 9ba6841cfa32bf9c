BASE = ('Every obligation generated from the current source is discharged for all inputs and sizes; floats are mathematical reals; '
        'numpy / at operations are modelled (trusted base in the evidence). ')
CLAIMS = {
    'C01': ('proof', BASE + 'Ordinates distinct and in range; children: one or two columns proved; several systematic tables at once bounded.'),
    'C02': ('proof', BASE + 'Ordinates distinct and in range.'),
    'C03': ('proof', BASE + 'Ordinates distinct and in range, limits non-negative.'),
    'C04': ('proof', BASE + 'Ordinates distinct and in range, limits non-negative.'),
    'C05': ('proof', BASE + 'Elements given are distinct (repeats bounded); for supports: up to two structures per call, types and forms of the uncertainties enumerated.'),
    'C06': ('proof', BASE + 'Isolation is by construction site of every element and array; histories of operations bounded; every operation proved for the operations under contract.'),
    'C07': ('proof', BASE + 'Registered BPMs in ring order without repeats; pseudo-orbit averages over turns and the errors of readings bounded.'),
    'C08': ('proof', BASE + 'Ordinates distinct; draws through the contract of randnc; the recursion over all registered structures at once and the statistics of the truncated draws bounded.'),
    'C09': ('proof', BASE + 'Structures of one type share no elements and have positive length; up to three structures of a type, layouts enumerated; locations between elements and locations with several types of structures bounded; transformations through C10; positions and numpy.interp through their contracts.'),
    'C10': ('proof', BASE + 'First-order (linearised) rigid-body change of the frame for tilts below 84 degrees; field-free tracking through tilted drifts bounded.'),
    'C11': ('proof', BASE + 'Total drift length non-zero.'),
    'C12': ('proof', BASE + 'Singular value decomposition through its contract.'),
    'C13': ('proof', BASE + 'Readings and tracking are arbitrary; numbers of strengths, settings and scan points concrete (up to 3), one monitor per plane for the whole alignment procedure; tune scans with several points and partially lost injection scans bounded.'),
    'C14': ('proof', BASE + 'Readings, pseudo-inverse and the verdict of the convergence criterion are arbitrary; corrector and cavity setpoints through their contracts (C03, C02); up to two steps and two turns (more bounded); the excursions of the threading bounded.'),
    'C15': ('proof', BASE + 'At least one valid value per line; one or two dimensions, every axis; the invariances under permutation, common rescaling and whole periods are bounded.'),
    'C16': ('proof', BASE),
    'C17': ('proof', BASE + 'Readings are arbitrary (not-a-number included); the fits through the contract of weighted least squares; the whole procedure on a tracked ring bounded.'),
    'C18': ('proof', BASE + 'The least-squares solver is arbitrary; model responses are arbitrary; one quadrupole per jacobian, up to two families; the normal equations of loco_correction_ng bounded.'),
    'C19': ('proof', BASE + 'Tracking positions are arbitrary; draws and the eigendecomposition through their contracts.'),
    'C20': ('proof', BASE + 'Readings of the beam are arbitrary; least-squares fits through their contract.'),
    'C21': ('proof', BASE + 'Driving order 0..2, at most two stored entries per magnet; draws through the contract of randnc.'),
    'C22': ('proof', BASE + 'Tracking and closed-orbit search are arbitrary answers for each lattice given to them; horizontal and vertical corrector lists of any length.'),
}
NOT = {}
