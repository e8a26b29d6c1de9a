import sys
sys.setrecursionlimit(20000)
