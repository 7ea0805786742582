import checks_c

CHECKS = {}
for n in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15'):
    CHECKS[n] = (getattr(checks_c, n), 'model_checking')
import checks_p
for n in ('P01', 'P02', 'P03', 'P04', 'P05', 'P06', 'P07', 'P08', 'P09', 'P10', 'P11'):
    CHECKS[n] = (getattr(checks_p, n), 'model_checking')
