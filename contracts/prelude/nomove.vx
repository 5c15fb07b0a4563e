@raw
// the moves themselves do not matter here
pub struct AnyMove { pub g: Ghost<int> }
