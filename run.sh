#!/bin/bash
# bash run.sh <ID> [quick|thorough]           run one check
# bash run.sh <ID> --replay FILE              re-run one saved case
# Everything the code under test writes goes to scratch directories that are removed at the end (lib/shards.py).
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?usage: run.sh ID [quick|thorough | --replay FILE]}; shift
case "${1:-}" in
  quick|thorough) export VERIF_TIER=$1; shift ;;
esac
export VERIF_TIER=${VERIF_TIER:-quick} VERIF_SEED=${VERIF_SEED:-1} PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$here/lib/shards.py" "$id" "$@"
