import os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, "/repo")
sys.path.insert(0, os.path.join(VERIF, "mc"))
sys.path.insert(0, os.path.join(VERIF, "checks"))
import core
sys.modules.setdefault("core", core)
if __name__ == "__main__":
    prop = sys.argv[1]
    if prop == "--self":
        import selfcheck  # noqa: F401
        sys.exit(0)
    core.main(prop, prop.lower(), sys.argv[2:])
