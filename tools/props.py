"""Which harness decides which property, and how a case counts as distinct."""
import os
SUPP = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'cfg', 'memcheck.supp')
ASSUMPTIONS = [
    'g++ 13, x86-64, OpenBLAS and FFTW3 of this machine are trusted',
    'a quiet run says only that the executions counted here met the property',
]
PROPS = {
    'P04': dict(harness=[dict(name='core')],
                rule='a case builds a tensor of random rank and dimensions and drives one access form or builder; distinct by the generated input'),
    'P05': dict(harness=[dict(name='core')],
                rule='a case reads or writes one slice of random ranges; distinct by dimensions and ranges'),
    'P06': dict(harness=[dict(name='core')],
                rule='a case applies one shape operation; distinct by dimensions and arguments'),
    'P07': dict(harness=[dict(name='elem')],
                rule='a case applies every operator or function of one kind to one set of operands; distinct by dimensions, types and leading values'),
    'P08': dict(harness=[dict(name='elem')],
                rule='a case applies every comparison or boolean operation to one set of operands; distinct by operands'),
    'P09': dict(harness=[dict(name='contract')],
                rule='a case contracts two tensors over one pair of indices; distinct by operation, types, dimensions and indices'),
    'P10': dict(harness=[dict(name='contract')],
                rule='a case applies one diagonal, trace or scaling operation; distinct by dimensions, offset and indices'),
    'P11': dict(harness=[dict(name='contract')],
                rule='a case reduces, sorts or spaces one set of values; distinct by the values'),
    'P12': dict(harness=[dict(name='contract')],
                rule='a case multiplies or adds two operands; distinct by types and dimensions'),
    'P13': dict(harness=[dict(name='sparse')],
                rule='a case builds one sparse matrix, or runs one chain of operations, and reads all its parts; distinct by the generated input'),
    'P14': dict(harness=[dict(name='sparse')],
                rule='a case applies one group of sparse operations to one set of operands; distinct by operands'),
    'P15': dict(harness=[dict(name='linalg')],
                rule='a case solves one system with one solver and checks the residual in extended precision; distinct by solver, shape and condition'),
    'P16': dict(harness=[dict(name='linalg')],
                rule='a case decomposes one matrix with every set of outputs and both algorithms; distinct by the matrix'),
    'P17': dict(harness=[dict(name='linalg')],
                rule='a case decomposes one square matrix with every set of outputs; distinct by the matrix'),
    'P18': dict(harness=[dict(name='linalg')],
                rule='a case computes some eigenvalues of one operator of known spectrum (events: converged results judged); distinct by operator kind, selection and spectrum'),
    'P19': dict(harness=[dict(name='linalg')],
                rule='a case exponentiates one matrix and its negative; distinct by the matrix'),
    'P31': dict(harness=[dict(name='linalg')],
                rule='a case drives one solver through one run, turn by turn (events: turns), or one call out of turn in a child, or sorts one set of values; distinct by problem and calls'),
    'P20': dict(harness=[dict(name='fft')],
                rule='a case transforms or shifts one tensor over one set of indices, out of place, in place and back; distinct by dimensions, indices and direction'),
    'P21': dict(harness=[dict(name='sdf')],
                rule='a case writes a history of sessions over a data file and reads everything back; distinct by the history'),
    'P24': dict(harness=[dict(name='sdf')],
                rule='a case damages one file, or denies one write, and judges how a child process reading or writing it ends; distinct by file and damage'),
    'P32': dict(harness=[dict(name='pyread')],
                technique='runtime monitoring: the Python reader runs in a process of its own and all it returns is compared, bit for bit, with what the library wrote',
                rule='a case writes one file (by the library, as another machine would, or damaged) and compares what the Python reader returns or refuses (events: variables compared); distinct by file'),
    'P22': dict(harness=[dict(name='sdfcrash', flavor='plain')],
                technique='runtime monitoring with fault injection: the session runs under a system call tracer that kills it, cuts writes or fails calls at every call in turn; oracle over the directory left behind',
                rule='an evaluation is one session with every crash and failure point in turn (child processes: one per point; events: system calls seen); distinct by session and point'),
    'P23': dict(harness=[dict(name='sdfshare', flavor='plain')],
                technique='runtime monitoring: event log of several processes with injected delays in the lock protocol, checked for exclusion and against the final files',
                rule='an evaluation is one run of several processes (events: entries of their common log); distinct by the interleaving of the events'),
    'P25': dict(harness=[dict(name='jobs')],
                rule='a case enumerates one grid of parameters, whole, by number, in blocks or in ranges, or drives one data set; distinct by grid and division'),
    'P26': dict(harness=[dict(name='rng')],
                rule='a case seeds the generator and judges one sequence of draws; distinct by seed, type and interval'),
    'P27': dict(harness=[dict(name='maps')],
                rule='a case builds one operator, changes what it was built from and applies it; distinct by operator and operands'),
    'P01': dict(harness=[dict(name='value')],
                rule='a case is a history of copies, assignments, reshapes, slices and writes over a pool of handles, all compared with a model after every step (events), or one library call whose arguments are compared before and after; distinct by history or call'),
    'P28': dict(harness=[dict(name='value')],
                rule='a case is a history over a pool of handles whose storage addresses and reference counts are compared with a model after every step (events), or one operation on a large tensor with the allocations it makes; distinct by history'),
    'P29': dict(harness=[dict(name='tools')],
                rule='a case prints one object with one stream format and compares the text with the model, or parses it back; distinct by the object'),
    'P30': dict(harness=[dict(name='tools')],
                rule='a case is a history of flag, clock or file operations (events) compared with a model after every step, or one failure under the abort handler; distinct by history'),
    'P02': dict(harness=[dict(name='mem'),
                         dict(name='mem', flavor='plain', label='memcheck', scale=0.012, stall=300,
                              wrap=['env', 'OPENBLAS_CORETYPE=Nehalem', 'valgrind', '-q', '--leak-check=no', '--error-exitcode=0', '--suppressions=' + SUPP])] +
                        [dict(name=n, workloads_of=w, scale=s, crash_only=True, shift=7919)
                         for n, w, s in (('core', ('P04', 'P05', 'P06'), 0.05), ('contract', ('P09', 'P10', 'P11', 'P12'), 0.05),
                                         ('sparse', ('P13', 'P14'), 0.05), ('linalg', ('P15', 'P16', 'P17', 'P18', 'P19', 'P31'), 0.1),
                                         ('fft', ('P20',), 0.05), ('sdf', ('P21',), 0.05), ('jobs', ('P25',), 0.05),
                                         ('maps', ('P27',), 0.1), ('rng', ('P26',), 0.05))],
                technique='runtime monitoring with AddressSanitizer, UndefinedBehaviorSanitizer, valgrind memcheck, a checker of the arguments passed to BLAS, LAPACK and FFTW, and a count of live bytes over repeated calls',
                rule='a case is one call, object life or file session repeated six times with the live bytes recorded, or one case of another property run with the argument checker on (events: calls to BLAS, LAPACK and FFTW checked); distinct by call and operands'),
    'P03': dict(harness=[dict(name='misuse')],
                technique='runtime monitoring of child processes under AddressSanitizer and UndefinedBehaviorSanitizer: the termination of each violating call is judged, next to a control that stays within the preconditions',
                rule='a case runs one call within its preconditions (events) and one just outside, in a child process that has to abort without a sanitizer report; distinct by call and arguments'),
}

# How many times the families' quick counts a property can afford in a quick run (about a minute)
QUICK_FACTOR = dict(P01=2, P04=2, P05=5, P06=4, P07=2, P08=6, P09=4, P10=8, P11=6, P12=8, P13=4, P14=6, P15=3, P16=6,
                    P17=6, P18=6, P19=8, P20=4, P21=2, P24=2, P25=2, P26=3, P27=5, P28=6)
