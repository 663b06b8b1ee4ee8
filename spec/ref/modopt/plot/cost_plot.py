import numpy as np
try:
    import matplotlib.pyplot as plt
except ImportError:
    import_fail = True
else:
    import_fail = False

def plotCost(cost_list, output=None):
    if import_fail:
        raise ImportError('Matplotlib package not found')
    else:
        if isinstance(output, type(None)):
            file_name = 'cost_function.png'
        else:
            file_name = f'{output}_cost_function.png'
        plt.figure()
        plt.plot(np.log10(cost_list), 'r-')
        plt.title('Cost Function')
        plt.xlabel('Iteration')
        plt.ylabel('$\\log_{10}$ Cost')
        plt.savefig(file_name)
        plt.close()
        print(' - Saving cost function data to:', file_name)
