from qiskit_optimization import QuadraticProgram
