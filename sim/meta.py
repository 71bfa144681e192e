META = {
    'P18': {'stub': 'mpi4py communicator (simulated), process scheduling, raw file layer (fault-injecting FileIO over a scratch directory), '
                    'user model, luq package (deterministic stand-in, the package is not installed)'},
    'P23': {'stub': 'mpi4py communicator (simulated), process scheduling, raw file layer, file encoding of figures (Figure.savefig writes the data of the '
                    'figure\'s artists through the simulated disk; 8 % of the runs also draw the figure); pyplot, axes and artists are real'},
}
