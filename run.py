import sys, os, importlib, warnings
warnings.filterwarnings('ignore')
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(10000)


def run():
    # optional back-ends chatter on import: keep our stdout for verdict lines only
    save = os.dup(1), os.dup(2)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    os.dup2(dn, 2)
    err = None
    try:
        import torch
        torch.set_num_threads(1)
        mod = importlib.import_module('checks.' + sys.argv[1].lower())
        from vlib.common import main
    except BaseException:
        import traceback
        err = traceback.format_exc()
    sys.stdout.flush()
    os.dup2(save[0], 1)
    os.dup2(save[1], 2)
    if err:
        print(err)
        # the package under test cannot even be imported for this property
        print('error: import failed')
        return 2
    return main(mod, sys.argv[2:])


if __name__ == '__main__':
    code = run()
    sys.stdout.flush()
    os._exit(code)
