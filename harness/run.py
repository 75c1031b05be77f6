"""Entry point: python -m harness.run C01."""
import importlib
import sys

TABLE = {
    'C24': ('golib', 'model_checking'),
    'C23': ('golib', 'model_checking'),
    'C22': ('golib', 'model_checking'),
    'C21': ('agree', 'model_checking'),
    'C20': ('audittest', 'model_checking'),
    'C19': ('auditrun', 'model_checking'),
    'C18': ('auditmech', 'model_checking'),
    'C15': ('cluster', 'model_checking'),
    'C16': ('cluster', 'model_checking'),
    'C17': ('cluster', 'model_checking'),
    'C12': ('searchcheck', 'model_checking'),
    'C13': ('composecheck', 'model_checking'),
    'C14': ('tuplecheck', 'model_checking'),
    'C11': ('calib', 'model_checking'),
    'C01': ('ledger', 'model_checking'),
    'C02': ('ledger', 'model_checking'),
    'C03': ('ledger', 'model_checking'),
    'C04': ('ledger', 'model_checking'),
    'C05': ('rdpcheck', 'model_checking'),
    'C06': ('rdpcheck', 'model_checking'),
    'C07': ('pldcheck', 'model_checking'),
    'C08': ('pldcheck', 'model_checking'),
    'C09': ('pldcheck', 'model_checking'),
    'C10': ('mechcheck', 'model_checking'),
}


def main():
  prop = sys.argv[1]
  from harness import vlib
  modname, level = TABLE[prop]
  try:
    mod = importlib.import_module('harness.' + modname)
  except Exception:  # pylint: disable=broad-except
    import traceback
    traceback.print_exc()
    sys.exit(2)
  vlib.run_check(prop, level, mod.body(prop))


if __name__ == '__main__':
  main()
