mkdemo () 
{ 
    mkdir -p seeded/$1;
    cat > seeded/$1/demo.sh <<'E'
#!/bin/bash
# run with cwd = the repository
export PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 PYTHONPATH=$PWD/src/python
exec /opt/pycold-venv/bin/python "$(dirname "$0")/demo.py"
E

    cat > seeded/$1/demo.py
}
