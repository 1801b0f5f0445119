"""Controllers of the models in written.py: they use the time, the state vector and the sensors."""
def hold(time, y, sensors):
    return sensors["s1"] * 2 - time * sum(y[i] for i in range(len(y)))
def follow(time, y, sensors):
    return 3 * sensors["v"][1, 0] - sensors["v"][0, 0] * sensors["s1"]
def drive(time, y, sensors):
    return time * 2 - sensors["sj1"][0, 0] * 3 - sensors["sj1"][1, 0] * sensors["sj2"][0, 0]
def push(time, y, sensors):
    return sensors["sp"] * -2 - sensors["sv"] * time
def scaled(time, y, sensors):
    return sensors["v"] * 3
