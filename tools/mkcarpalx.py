""" Freeze model parameters of the published models (run once) """
import sys, json
sys.path.insert (0, '/repo')
from lulua.carpalx import models
def conv (p):
    return dict (kBPS=p.kBPS, k123S=p.k123S, w0HRF=p.w0HRF, pHand={h.name: v for h, v in p.pHand.items ()}, pRow=p.pRow,
            pFinger={h.name: {f.name: v for f, v in d.items ()} for h, d in p.pFinger.items ()}, fHRF=p.fHRF, base=p.baselineEffort)
json.dump ({k: conv (v) for k, v in models.items ()}, sys.stdout, indent=1, sort_keys=True)
