"""P21: accuracy of the generated functions, group inv (see lib/acc.py)."""
import acc

RULE = ("calls of the generated functions, compiled from libmgen's output in both sizes, over their whole ranges (uniform, logarithmic and the seams of the "
        "argument reductions), each result compared with extended precision; distinct = (function, size, arguments) of a sample of the calls and of the worst call of each batch")


def main():
    return acc.check("P21", "inv", RULE)
