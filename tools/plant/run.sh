rm -f /tmp/mk.log
python3 plant.py make $* > /tmp/mk.log 2>&1
