"""properties that this family of technique does not decide here, with the reason"""
NA = {
    'P26': "the run-length codec is Fortran that leans on character arithmetic, log10 / int rounding and formatted reads and writes of text lines; no Fortran "
           "front end (gfortran IR, flang) to a symbolic executor is installed, the codec's result depends on 4-byte float rounding of logarithms, and a hand "
           "written model would not be an encoding of the current source",
    'P31': "seed generators are dominated by NumPy mesh and reshape code, scipy splines and compiled BLAS products with float rotation matrices built from "
           "arbitrary vectors; the parts that are exact (Line, and the frames it uses) are covered under P25, P32 and P40, the rest was not encoded",
    'P38': "time arithmetic happens inside NumPy's compiled datetime64 / timedelta64 scalars (64 bit counts with NaT and unit casts in C); the Python code "
           "only chooses casts, so an encoding would verify a model of NumPy and not the repository",
    'P39': "the readers parse bytes and text through h5py, struct, numpy.fromfile and compiled Fortran; a symbolic payload cannot pass through those "
           "libraries, and what the Python code does with loaded blocks (slicing, axis reversal, reordering) is decided under P07, P08 and P10",
}
