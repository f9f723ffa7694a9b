SPECIFICATION Spec
CONSTANTS
  Size = 4
  OpSet = {"copy","move","copy_backward","fill","shift_left","shift_right","rotate","reverse","swap_ranges","equal","find","count","sort","not","id","zeros","ones","and","or","xor","andnot","nand","nor","xnor","ornot","first","second","reverse_copy","rotate_copy","bit_set","bit_flip","bit_copy","bit_swap","bit_and","bit_or","bit_xor","bit_get","word_move"}
INVARIANTS Agree Discerns Canonical
CHECK_DEADLOCK FALSE
