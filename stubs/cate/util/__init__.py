"""stand-in for the part of the cate package that dedop.cli.main imports (cate is not installed here)"""
