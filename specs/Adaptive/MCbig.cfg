SPECIFICATION Spec
CONSTANTS
Kinds = {"run"}
Types = {"-", "maximum", "average", "minimum", "dorfel", "symmetrized", "truebeta"}
Betas = {50, 200, 402}
Epss = {99, 0, 2, 4}
Schemes = {"fullspan", "isotropic_function"}
MaxSteps = {1, 2, 3}
Dofs = {5, 9, 1000}
Tols = {20, 100}
Errors = {0, 16, 32, 80}
MaxElms = 3
Fails = {0}
Projs = {1}
Wide = FALSE
Exhaustive = TRUE
VIEW View
INVARIANTS Limited Greedy Stopped Failed Kept
PROPERTY Grows
CHECK_DEADLOCK FALSE
