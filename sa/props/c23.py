from display import GROUPS
from par import par

LEVEL = "other"
TECH = "abstract interpretation of MIR with intervals of decimal digits; the printed text read back as a polynomial identity"
EXPLAIN = ("The Display of an amount is interpreted over MIR for classes of amounts sign*(I + k1/10 + ... + kn/10^n + r/10^n): I zero, one open digit, nines, "
           "twenty or forty-five digits or any integer at all; each k a constant digit or any digit of a range; r zero or anything strictly between zero and one. The classes "
           "cover leading zeros, trailing nines that carry into the integer part, exact halves and everything just below and above them, both signs, for a commodity "
           "without declared precision and precisions 0 to 4, 6, 9 and 25. Integer parts, remainders, comparisons and digits of linear expressions are decided by interval arithmetic; "
           "the text written is read back and must equal the rounded amount identically, show exactly the declared number of decimals, a minus sign exactly for negative "
           "amounts, and the commodity.")
ASSUME = ["the other precisions behave like those analysed (the code loops over the decimals)",
          "BigInt, BigRational and the formatting machinery behave as documented (they are replaced by models)"]


def run(ctx):
    par(ctx, *GROUPS)
