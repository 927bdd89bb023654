"""Builds what the checks need (they rebuild it themselves, too) and checks that TLC runs."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pk import build
import tlc
build()
tlc.generate("GenInstall", "ProfPlan", 2, 1)
print("ready")
