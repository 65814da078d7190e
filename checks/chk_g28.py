"""Compiled code keeps the interpreter's stacks balanced."""
import compiled
RULE = ("following the code a parsing function emits instruction by instruction with the interpreter's stack effects: all ways to one place agree on the "
        "number of operands, scopes, loops and open argument lists; no operand of the enclosing construct lies on the stack where a statement's break or "
        "continue is taken; what one construct leaves is what the constructs built on it count on (one value; a key and an object in front of an "
        "assignment, ++ or --), with no scope, loop or argument list left open; function bodies start on an empty frame and are entered only by calls")
EXPLANATION = ("Stack effects of every instruction (and of every operator token) are read off the interpreter's dispatch loop.  Every parsing function is "
               "followed on all paths, loops up to three rounds, with the pieces other parsing functions emit counted as their contracts say, and the contract "
               "of each is established when it is followed itself.")
ASSUMPTIONS = ["assignment targets and operands of ++ and -- are names or properties without parentheses, and ++ or -- in front applies to a name (what the language supports)"]
CONFIGS_THOROUGH = ["default", "nodebug", "m32"]
def check(ctx, R): compiled.run(ctx, R, "balance")
