"""Entry point of the interpreters started by check.py."""
import faulthandler
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    faulthandler.enable()
    cfg = json.loads(sys.argv[1])
    from vsim import engine
    from vsim.util import REPO
    prop = engine.load_prop(cfg['prop'])
    getattr(prop, 'boot', _boot)(cfg)
    mode = cfg['mode']
    engine.CFG = cfg
    if mode == 'shard':
        engine.shard(cfg['prop'], cfg['tier'], cfg['seed'], cfg['n'], cfg['me'], cfg['out'], cfg['soft'])
    elif mode == 'minimise':
        engine.minimise(cfg['prop'], cfg['path'], cfg['out'], cfg['budget'])
    elif mode == 'products':
        engine.products_of(cfg['prop'], cfg['scn'], cfg['out'])
    elif mode == 'replay':
        v = engine.replay(cfg['prop'], cfg['path'])
        with open(cfg['out'], 'w') as f:
            json.dump(v, f)


def _boot(cfg):
    from vsim import bench
    from vsim.util import REPO
    bench.boot(cfg['libdir'], REPO)


if __name__ == '__main__':
    main()
