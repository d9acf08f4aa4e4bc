
 ;܌L��<�q��(�Fp�؜ݝ�Lw����p8�ڹ������xC�p���7�q~p/"-�%@��l�+d8���2�="���N�5��8���~��_�[�*