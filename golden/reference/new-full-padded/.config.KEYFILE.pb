
 ������K��9��������	��xDv6ˀx�Zw��x�y�y%�v]�h}�"-"�j��w,66;��b^?�#�~��E��otfO�������1jP,zm*