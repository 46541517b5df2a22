cd /verif && python3 tools/mkprops.py && python3 tools/mkfindings.py && python3 tools/mkmanifest.py && /opt/venv/bin/python -B -c "import sys; sys.path.insert(0,'.'); from lib import boot; import runpy; runpy.run_path('tools/mkdesign.py', run_name='__main__')"
