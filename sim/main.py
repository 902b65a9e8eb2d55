import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine
if __name__ == "__main__":
    try:
        if sys.argv[1] == "replay": code = engine.replay(sys.argv[2])
        else:
            n = int(sys.argv[3]) if len(sys.argv) > 3 else None
            code = engine.main(sys.argv[2].upper(), int(os.environ.get("VERIF_SEED", "1")), os.environ.get("VERIF_TIER", "quick"), n)
    except Exception:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
