@struct src/solver/evaluate.rs RouteEvaluation
@struct src/solver/evaluate.rs SolutionEvaluation
@struct src/solver/genetic/individual.rs Individual
