PROPERTY = "C18"
NEEDS = "two colour readings competing for one depth reading while the offset is not zero"
BREAKS = "with an offset, the pair that is closest without it wins instead of the closest remaining pair"
EDITS = [("gradslam/datasets/tumutils.py", """        (abs(float(a) - (float(b) + offset)), a, b)
""", """        (abs(float(a) - float(b) - abs(offset)), a, b)
""")]
DEMO = '''
from gradslam.datasets.tumutils import associate
first = {"1.000": ["a"], "1.012": ["b"]}
second = {"1.025": ["x"]}
# with offset -0.02 the depth reading is at 1.005: 5 ms from the first, 7 ms from the second
m = associate(first, second, -0.02, 0.02)
need(m == [("1.000", "1.025")], m)
'''
