
import numpy as np
import matplotlib as mpl
import matplotlib.pyplot as plt
import seaborn

def plot_coords(coords, *args, **kwargs):
    x, y = zip(*coords)
    plt.plot(list(x), list(y), *args, **kwargs)


plot_coords([(0, 0.04300291668017132), (201.57106656295142, 0.064), (30525.563100646348, 0.06400000000000249), (30599.986, 0.033), (30603.228897685996, 0.064), (70814.33227333965, 0.06399999999999005), (70829.98400000001, 0.034999999999999996), (70829.99813572245, 0.064), (86399.94866407379, 0.06399999999999958), (86399.97200000001, 0.043), (86399.986, 0.04300145834008566), (86400, 0.04300291668017132), ], 'r+-', label='f', linewidth=1, markersize=5)
plot_coords([(0, 0.043), (33019.977, 0.04299999999784632), (43239.977, 323.0049999999974), (43749.977, 0.04299999999784632), (68109.977, 109.24599999999919), (86389.984, 0.10266460246038799), (86399.977, 0.043000000005122274), (86399.981, 0.043000000005122274), (86399.984, 0.043), (86400, 0.043), ], 'gx-', label='g', linewidth=1, markersize=5)
plot_coords([(86399.986, 0.04300145834008566)], 'rs', markersize=10)
plot_coords([(86399.984, 0.043)], 'gs', markersize=10)
plot_coords([(0, 0.043), (30575.978613116516, 0.042999999998005724), (30599.986, 0.033), (30601.03209602753, 0.04299999999800409), (33019.977, 0.04299999999784632), (33020.641536385156, 0.0639999999999994), (43749.94383820387, 0.06399999999999675), (43749.977, 0.04299999999784632), (43754.661486690406, 0.06399999999999674), (70814.33227333965, 0.06399999999999005), (70829.98400000001, 0.034999999999999996), (70829.99813572245, 0.064), (86396.45978893492, 0.06399999999999958), (86399.97196660453, 0.043030052595931345), (86399.97200000001, 0.043), (86399.984, 0.043), ], 'bo-', label='merged', linewidth=1, markersize=1)
plt.vlines(0, 0.033, 323.0049999999974, 'g', linewidth=1)
plt.vlines(30575.978613116516, 0.033, 323.0049999999974, 'r', linewidth=1)
plt.vlines(30601.03209602753, 0.033, 323.0049999999974, 'g', linewidth=1)
plt.vlines(33020.641536385156, 0.033, 323.0049999999974, 'r', linewidth=1)
plt.vlines(43749.94383820387, 0.033, 323.0049999999974, 'g', linewidth=1)
plt.vlines(43754.661486690406, 0.033, 323.0049999999974, 'r', linewidth=1)
plt.vlines(86396.45978893492, 0.033, 323.0049999999974, 'g', linewidth=1)
plt.vlines(86399.97196660453, 0.033, 323.0049999999974, 'r', linewidth=1)
plt.legend()
plt.show()
