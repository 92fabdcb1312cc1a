SPECIFICATION Spec
PROPERTY MoveKeeps
CHECK_DEADLOCK FALSE
CONSTANTS
Sigma = {97, 32, 195, 169, 0}
MaxLen = 3
