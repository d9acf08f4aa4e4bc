
 *�iqYU���AC���$>޿��R� ����M2i�Z������0wUJ&���Y�Qc�'"+�
���sZ��'/�)"d���=�֍�Gݕa�.7V�B�/2��4*