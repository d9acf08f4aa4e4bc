
 Q�E:ΙW/op�U�_&���W4xl���O�`�4�1>��CP6I���B��P�"+(2�iBR�6}������ݯ�XI��J�D籧��GA>�z�*