"""C02: MMX, SSE, AVX, BMI and AVX-512 instructions encode what was written."""
from lib.isacheck import IsaProp


class P(IsaProp):
    id = "C02"
    simd = True
    rule = "distinct statements (text and mode) that gas accepts and whose bytes were compared; all are non-trivial"
    counts = {"quick": 12000, "thorough": 150000}
    assumptions = ["GNU as 2.42 and objdump define what a statement and a byte string mean",
                   "operand forms and operand feature classes on which the pristine tree fails are outside the domain (data/forms.txt lists the domain; the failures are known findings)"]


PROP = P()
