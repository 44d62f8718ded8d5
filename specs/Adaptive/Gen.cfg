SPECIFICATION Spec
CONSTANTS
Kinds = {"run", "iso"}
Types = {"-", "maximum", "average", "minimum", "dorfel", "symmetrized", "truebeta"}
Betas = {10, 50, 100, 200, 300, 402}
Epss = {99, 0, 1, 2, 4}
Schemes = {"fullspan", "minspan", "isotropic_function"}
MaxSteps = {1, 2, 3, 4}
Dofs = {5, 9, 1000}
Tols = {4, 20, 40, 100, 200}
Errors = {0, 16, 32, 48, 80}
MaxElms = 4
Fails = {0, 1, 2, 3, 5, 8, 11, 12, 13, 18, 27, 35, 60}
Projs = {0, 1, 2, 3}
Wide = TRUE
Exhaustive = FALSE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
