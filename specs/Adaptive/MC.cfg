SPECIFICATION Spec
CONSTANTS
Kinds = {"run"}
Types = {"-", "maximum", "average", "minimum", "dorfel", "symmetrized", "truebeta"}
Betas = {100, 200, 400}
Epss = {0, 2}
Schemes = {"fullspan", "isotropic_function"}
MaxSteps = {1, 3}
Dofs = {5, 1000}
Tols = {20, 100}
Errors = {0, 16, 48}
MaxElms = 3
Fails = {0}
Projs = {1}
Wide = FALSE
Exhaustive = TRUE
VIEW View
INVARIANTS Limited Greedy Stopped Failed Kept
PROPERTY Grows
CHECK_DEADLOCK FALSE
