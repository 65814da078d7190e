"""Compiled instructions carry the operands the interpreter reads and jumps lead to instructions."""
import compiled, emitters
RULE = ("behind every instruction a parsing function emits lie exactly the operands the interpreter's code for that instruction reads (numbers, strings, "
        "one raw byte), in that order; every distance the interpreter adds to its program counter or records for break and continue is filled in, and "
        "leads to the start of something emitted by the same construct; the functions that write code make exactly the room they fill, keep "
        "the insertion point behind it, and report how far code moved")
EXPLANATION = ("Operand layouts and successors are read off the interpreter's dispatch loop.  Every parsing function is followed on all paths (loops up to "
               "three rounds, other parsing functions as opaque pieces) with the code buffer modelled as a sequence of pieces of symbolic length; positions and "
               "distances are linear terms over these lengths, so that a distance of any encoded size is resolved to the place it leads to.  The functions that "
               "write into the buffer are checked separately against that model.")
ASSUMPTIONS = ["memory allocation succeeds", "a jump distance is reserved as a single byte (the default of MJS_INIT_OFFSET_SIZE)"]
CONFIGS_THOROUGH = ["default", "nodebug", "m32"]
def check(ctx, R):
    emitters.run(ctx, R)
    compiled.run(ctx, R, "layout")
