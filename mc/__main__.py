import os
import sys
from mc import harness

if sys.argv[1] == 'replay':
    sys.exit(harness.replay(sys.argv[2]))
if sys.argv[1] == 'selftest':
    from mc import ref, reftrans
    reftrans._selftest()
    print('reference models: self-test passed')
    sys.exit(0)
sys.exit(harness.main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2
                      else os.environ.get('VERIF_TIER', 'quick')))
