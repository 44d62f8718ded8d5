SPECIFICATION Spec
CONSTANTS
Kinds = {"run", "iso"}
Types = {"-"}
Betas = {200}
Epss = {0}
Schemes = {"fullspan"}
MaxSteps = {2}
Dofs = {1000}
Tols = {20}
Errors = {32}
MaxElms = 1
Fails = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20}
Projs = {0, 1, 2}
Wide = TRUE
Exhaustive = TRUE
VIEW View
INVARIANTS Limited Greedy Stopped Failed Kept
PROPERTY Grows
CHECK_DEADLOCK FALSE
