
import numpy as np
import matplotlib as mpl
import matplotlib.pyplot as plt
import seaborn

def plot_coords(coords, *args, **kwargs):
    x, y = zip(*coords)
    plt.plot(list(x), list(y), *args, **kwargs)


plot_coords([(0, 30.003), (86390, 0.003), (86400, 30.003), ], 'r+-', label='f', linewidth=1, markersize=5)
plot_coords([(0, 30.002998958212757), (23400, 26.26453432110198), (34200, 71.87295381409885), (41400, 15.626334992475982), (61200, 8.750539182775785), (70200, 5.625177451093876), (73800, 93.66801389049658), (79200, 2.49981571941197), (86389.997, 0.0029999999969732016), (86399.997, 30.002999999996973), (86400, 30.002998958212757), ], 'gx-', label='g', linewidth=1, markersize=5)
plot_coords([(86400, 30.003)], 'rs', markersize=10)
plot_coords([(86400, 30.002998958212757)], 'gs', markersize=10)
plot_coords([(0, 30.002998958212757), (0.005556229193751962, 30.002998070530435), (41399.999860439435, 15.626336082727363), (41400, 15.626334992475982), (61200, 8.750539182775785), (70200, 5.625177451093876), (70200.00004200144, 5.625178478295599), (79199.99993699783, 2.499816783077499), (79200, 2.49981571941197), (86389.99699934723, 0.00300000022365543), (86389.99700034723, 0.003001041666667703), (86390, 0.003), (86400, 30.002998958212757), ], 'bo-', label='merged', linewidth=1, markersize=1)
plt.vlines(0, 0.0029999999969732016, 93.66801389049658, 'g', linewidth=1)
plt.vlines(0.005556229193751962, 0.0029999999969732016, 93.66801389049658, 'r', linewidth=1)
plt.vlines(41399.999860439435, 0.0029999999969732016, 93.66801389049658, 'g', linewidth=1)
plt.vlines(70200.00004200144, 0.0029999999969732016, 93.66801389049658, 'r', linewidth=1)
plt.vlines(79199.99993699783, 0.0029999999969732016, 93.66801389049658, 'g', linewidth=1)
plt.vlines(86389.99700034723, 0.0029999999969732016, 93.66801389049658, 'r', linewidth=1)
plt.legend()
plt.show()
