import logging

def set_up_log(filename, verbose=True):
    filename = f'{filename}.log'
    if verbose:
        print('Preparing log file:', filename)
    logging.captureWarnings(True)
    formatter = logging.Formatter(fmt='%(asctime)s %(message)s', datefmt='%d/%m/%Y %H:%M:%S')
    fh = logging.FileHandler(filename=filename, mode='w')
    fh.setLevel(logging.DEBUG)
    fh.setFormatter(formatter)
    log = logging.getLogger(filename)
    log.setLevel(logging.DEBUG)
    log.addHandler(fh)
    log.info('The log file has been set-up.')
    return log

def close_log(log, verbose=True):
    if verbose:
        print('Closing log file:', log.name)
    log.info('The log file has been closed.')
    for log_handler in list(log.handlers):
        log.removeHandler(log_handler)
        log_handler.close()
