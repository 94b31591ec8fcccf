/* written by tools/gen_flts.py */
#include "ref.h"
static const double D[][100]={
{00.0,01.0,02.0,03.0,04.0,05.0,06.0,07.0,08.0,09.0,10.0,11.0,12.0,13.0,14.0,15.0,16.0,17.0,18.0,19.0,20.0,21.0,22.0,23.0,24.0,25.0,26.0,27.0,28.0,29.0,30.0,31.0,32.0,33.0,34.0,35.0,36.0,37.0,38.0,39.0,40.0,41.0,42.0,43.0,44.0,45.0,46.0,47.0,48.0,49.0,50.0,51.0,52.0,53.0,54.0,55.0,56.0,57.0,58.0,59.0,60.0,61.0,62.0,63.0,64.0,65.0,66.0,67.0,68.0,69.0,70.0,71.0,72.0,73.0,74.0,75.0,76.0,77.0,78.0,79.0,80.0,81.0,82.0,83.0,84.0,85.0,86.0,87.0,88.0,89.0,90.0,91.0,92.0,93.0,94.0,95.0,96.0,97.0,98.0,99.0},
{0.00,0.01,0.02,0.03,0.04,0.05,0.06,0.07,0.08,0.09,0.10,0.11,0.12,0.13,0.14,0.15,0.16,0.17,0.18,0.19,0.20,0.21,0.22,0.23,0.24,0.25,0.26,0.27,0.28,0.29,0.30,0.31,0.32,0.33,0.34,0.35,0.36,0.37,0.38,0.39,0.40,0.41,0.42,0.43,0.44,0.45,0.46,0.47,0.48,0.49,0.50,0.51,0.52,0.53,0.54,0.55,0.56,0.57,0.58,0.59,0.60,0.61,0.62,0.63,0.64,0.65,0.66,0.67,0.68,0.69,0.70,0.71,0.72,0.73,0.74,0.75,0.76,0.77,0.78,0.79,0.80,0.81,0.82,0.83,0.84,0.85,0.86,0.87,0.88,0.89,0.90,0.91,0.92,0.93,0.94,0.95,0.96,0.97,0.98,0.99},
{00e5,01e5,02e5,03e5,04e5,05e5,06e5,07e5,08e5,09e5,10e5,11e5,12e5,13e5,14e5,15e5,16e5,17e5,18e5,19e5,20e5,21e5,22e5,23e5,24e5,25e5,26e5,27e5,28e5,29e5,30e5,31e5,32e5,33e5,34e5,35e5,36e5,37e5,38e5,39e5,40e5,41e5,42e5,43e5,44e5,45e5,46e5,47e5,48e5,49e5,50e5,51e5,52e5,53e5,54e5,55e5,56e5,57e5,58e5,59e5,60e5,61e5,62e5,63e5,64e5,65e5,66e5,67e5,68e5,69e5,70e5,71e5,72e5,73e5,74e5,75e5,76e5,77e5,78e5,79e5,80e5,81e5,82e5,83e5,84e5,85e5,86e5,87e5,88e5,89e5,90e5,91e5,92e5,93e5,94e5,95e5,96e5,97e5,98e5,99e5},
{00e-7,01e-7,02e-7,03e-7,04e-7,05e-7,06e-7,07e-7,08e-7,09e-7,10e-7,11e-7,12e-7,13e-7,14e-7,15e-7,16e-7,17e-7,18e-7,19e-7,20e-7,21e-7,22e-7,23e-7,24e-7,25e-7,26e-7,27e-7,28e-7,29e-7,30e-7,31e-7,32e-7,33e-7,34e-7,35e-7,36e-7,37e-7,38e-7,39e-7,40e-7,41e-7,42e-7,43e-7,44e-7,45e-7,46e-7,47e-7,48e-7,49e-7,50e-7,51e-7,52e-7,53e-7,54e-7,55e-7,56e-7,57e-7,58e-7,59e-7,60e-7,61e-7,62e-7,63e-7,64e-7,65e-7,66e-7,67e-7,68e-7,69e-7,70e-7,71e-7,72e-7,73e-7,74e-7,75e-7,76e-7,77e-7,78e-7,79e-7,80e-7,81e-7,82e-7,83e-7,84e-7,85e-7,86e-7,87e-7,88e-7,89e-7,90e-7,91e-7,92e-7,93e-7,94e-7,95e-7,96e-7,97e-7,98e-7,99e-7},
{100.25,101.25,102.25,103.25,104.25,105.25,106.25,107.25,108.25,109.25,110.25,111.25,112.25,113.25,114.25,115.25,116.25,117.25,118.25,119.25,120.25,121.25,122.25,123.25,124.25,125.25,126.25,127.25,128.25,129.25,130.25,131.25,132.25,133.25,134.25,135.25,136.25,137.25,138.25,139.25,140.25,141.25,142.25,143.25,144.25,145.25,146.25,147.25,148.25,149.25,150.25,151.25,152.25,153.25,154.25,155.25,156.25,157.25,158.25,159.25,160.25,161.25,162.25,163.25,164.25,165.25,166.25,167.25,168.25,169.25,170.25,171.25,172.25,173.25,174.25,175.25,176.25,177.25,178.25,179.25,180.25,181.25,182.25,183.25,184.25,185.25,186.25,187.25,188.25,189.25,190.25,191.25,192.25,193.25,194.25,195.25,196.25,197.25,198.25,199.25},
{9007199254740900.0,9007199254740901.0,9007199254740902.0,9007199254740903.0,9007199254740904.0,9007199254740905.0,9007199254740906.0,9007199254740907.0,9007199254740908.0,9007199254740909.0,9007199254740910.0,9007199254740911.0,9007199254740912.0,9007199254740913.0,9007199254740914.0,9007199254740915.0,9007199254740916.0,9007199254740917.0,9007199254740918.0,9007199254740919.0,9007199254740920.0,9007199254740921.0,9007199254740922.0,9007199254740923.0,9007199254740924.0,9007199254740925.0,9007199254740926.0,9007199254740927.0,9007199254740928.0,9007199254740929.0,9007199254740930.0,9007199254740931.0,9007199254740932.0,9007199254740933.0,9007199254740934.0,9007199254740935.0,9007199254740936.0,9007199254740937.0,9007199254740938.0,9007199254740939.0,9007199254740940.0,9007199254740941.0,9007199254740942.0,9007199254740943.0,9007199254740944.0,9007199254740945.0,9007199254740946.0,9007199254740947.0,9007199254740948.0,9007199254740949.0,9007199254740950.0,9007199254740951.0,9007199254740952.0,9007199254740953.0,9007199254740954.0,9007199254740955.0,9007199254740956.0,9007199254740957.0,9007199254740958.0,9007199254740959.0,9007199254740960.0,9007199254740961.0,9007199254740962.0,9007199254740963.0,9007199254740964.0,9007199254740965.0,9007199254740966.0,9007199254740967.0,9007199254740968.0,9007199254740969.0,9007199254740970.0,9007199254740971.0,9007199254740972.0,9007199254740973.0,9007199254740974.0,9007199254740975.0,9007199254740976.0,9007199254740977.0,9007199254740978.0,9007199254740979.0,9007199254740980.0,9007199254740981.0,9007199254740982.0,9007199254740983.0,9007199254740984.0,9007199254740985.0,9007199254740986.0,9007199254740987.0,9007199254740988.0,9007199254740989.0,9007199254740990.0,9007199254740991.0,9007199254740992.0,9007199254740993.0,9007199254740994.0,9007199254740995.0,9007199254740996.0,9007199254740997.0,9007199254740998.0,9007199254740999.0},
{9007199254740993.000,9007199254740993.001,9007199254740993.002,9007199254740993.003,9007199254740993.004,9007199254740993.005,9007199254740993.006,9007199254740993.007,9007199254740993.008,9007199254740993.009,9007199254740993.010,9007199254740993.011,9007199254740993.012,9007199254740993.013,9007199254740993.014,9007199254740993.015,9007199254740993.016,9007199254740993.017,9007199254740993.018,9007199254740993.019,9007199254740993.020,9007199254740993.021,9007199254740993.022,9007199254740993.023,9007199254740993.024,9007199254740993.025,9007199254740993.026,9007199254740993.027,9007199254740993.028,9007199254740993.029,9007199254740993.030,9007199254740993.031,9007199254740993.032,9007199254740993.033,9007199254740993.034,9007199254740993.035,9007199254740993.036,9007199254740993.037,9007199254740993.038,9007199254740993.039,9007199254740993.040,9007199254740993.041,9007199254740993.042,9007199254740993.043,9007199254740993.044,9007199254740993.045,9007199254740993.046,9007199254740993.047,9007199254740993.048,9007199254740993.049,9007199254740993.050,9007199254740993.051,9007199254740993.052,9007199254740993.053,9007199254740993.054,9007199254740993.055,9007199254740993.056,9007199254740993.057,9007199254740993.058,9007199254740993.059,9007199254740993.060,9007199254740993.061,9007199254740993.062,9007199254740993.063,9007199254740993.064,9007199254740993.065,9007199254740993.066,9007199254740993.067,9007199254740993.068,9007199254740993.069,9007199254740993.070,9007199254740993.071,9007199254740993.072,9007199254740993.073,9007199254740993.074,9007199254740993.075,9007199254740993.076,9007199254740993.077,9007199254740993.078,9007199254740993.079,9007199254740993.080,9007199254740993.081,9007199254740993.082,9007199254740993.083,9007199254740993.084,9007199254740993.085,9007199254740993.086,9007199254740993.087,9007199254740993.088,9007199254740993.089,9007199254740993.090,9007199254740993.091,9007199254740993.092,9007199254740993.093,9007199254740993.094,9007199254740993.095,9007199254740993.096,9007199254740993.097,9007199254740993.098,9007199254740993.099},
{4503599627370495.00,4503599627370495.01,4503599627370495.02,4503599627370495.03,4503599627370495.04,4503599627370495.05,4503599627370495.06,4503599627370495.07,4503599627370495.08,4503599627370495.09,4503599627370495.10,4503599627370495.11,4503599627370495.12,4503599627370495.13,4503599627370495.14,4503599627370495.15,4503599627370495.16,4503599627370495.17,4503599627370495.18,4503599627370495.19,4503599627370495.20,4503599627370495.21,4503599627370495.22,4503599627370495.23,4503599627370495.24,4503599627370495.25,4503599627370495.26,4503599627370495.27,4503599627370495.28,4503599627370495.29,4503599627370495.30,4503599627370495.31,4503599627370495.32,4503599627370495.33,4503599627370495.34,4503599627370495.35,4503599627370495.36,4503599627370495.37,4503599627370495.38,4503599627370495.39,4503599627370495.40,4503599627370495.41,4503599627370495.42,4503599627370495.43,4503599627370495.44,4503599627370495.45,4503599627370495.46,4503599627370495.47,4503599627370495.48,4503599627370495.49,4503599627370495.50,4503599627370495.51,4503599627370495.52,4503599627370495.53,4503599627370495.54,4503599627370495.55,4503599627370495.56,4503599627370495.57,4503599627370495.58,4503599627370495.59,4503599627370495.60,4503599627370495.61,4503599627370495.62,4503599627370495.63,4503599627370495.64,4503599627370495.65,4503599627370495.66,4503599627370495.67,4503599627370495.68,4503599627370495.69,4503599627370495.70,4503599627370495.71,4503599627370495.72,4503599627370495.73,4503599627370495.74,4503599627370495.75,4503599627370495.76,4503599627370495.77,4503599627370495.78,4503599627370495.79,4503599627370495.80,4503599627370495.81,4503599627370495.82,4503599627370495.83,4503599627370495.84,4503599627370495.85,4503599627370495.86,4503599627370495.87,4503599627370495.88,4503599627370495.89,4503599627370495.90,4503599627370495.91,4503599627370495.92,4503599627370495.93,4503599627370495.94,4503599627370495.95,4503599627370495.96,4503599627370495.97,4503599627370495.98,4503599627370495.99},
{16777200.0,16777201.0,16777202.0,16777203.0,16777204.0,16777205.0,16777206.0,16777207.0,16777208.0,16777209.0,16777210.0,16777211.0,16777212.0,16777213.0,16777214.0,16777215.0,16777216.0,16777217.0,16777218.0,16777219.0,16777220.0,16777221.0,16777222.0,16777223.0,16777224.0,16777225.0,16777226.0,16777227.0,16777228.0,16777229.0,16777230.0,16777231.0,16777232.0,16777233.0,16777234.0,16777235.0,16777236.0,16777237.0,16777238.0,16777239.0,16777240.0,16777241.0,16777242.0,16777243.0,16777244.0,16777245.0,16777246.0,16777247.0,16777248.0,16777249.0,16777250.0,16777251.0,16777252.0,16777253.0,16777254.0,16777255.0,16777256.0,16777257.0,16777258.0,16777259.0,16777260.0,16777261.0,16777262.0,16777263.0,16777264.0,16777265.0,16777266.0,16777267.0,16777268.0,16777269.0,16777270.0,16777271.0,16777272.0,16777273.0,16777274.0,16777275.0,16777276.0,16777277.0,16777278.0,16777279.0,16777280.0,16777281.0,16777282.0,16777283.0,16777284.0,16777285.0,16777286.0,16777287.0,16777288.0,16777289.0,16777290.0,16777291.0,16777292.0,16777293.0,16777294.0,16777295.0,16777296.0,16777297.0,16777298.0,16777299.0},
{167772100.5,167772101.5,167772102.5,167772103.5,167772104.5,167772105.5,167772106.5,167772107.5,167772108.5,167772109.5,167772110.5,167772111.5,167772112.5,167772113.5,167772114.5,167772115.5,167772116.5,167772117.5,167772118.5,167772119.5,167772120.5,167772121.5,167772122.5,167772123.5,167772124.5,167772125.5,167772126.5,167772127.5,167772128.5,167772129.5,167772130.5,167772131.5,167772132.5,167772133.5,167772134.5,167772135.5,167772136.5,167772137.5,167772138.5,167772139.5,167772140.5,167772141.5,167772142.5,167772143.5,167772144.5,167772145.5,167772146.5,167772147.5,167772148.5,167772149.5,167772150.5,167772151.5,167772152.5,167772153.5,167772154.5,167772155.5,167772156.5,167772157.5,167772158.5,167772159.5,167772160.5,167772161.5,167772162.5,167772163.5,167772164.5,167772165.5,167772166.5,167772167.5,167772168.5,167772169.5,167772170.5,167772171.5,167772172.5,167772173.5,167772174.5,167772175.5,167772176.5,167772177.5,167772178.5,167772179.5,167772180.5,167772181.5,167772182.5,167772183.5,167772184.5,167772185.5,167772186.5,167772187.5,167772188.5,167772189.5,167772190.5,167772191.5,167772192.5,167772193.5,167772194.5,167772195.5,167772196.5,167772197.5,167772198.5,167772199.5},
{838800.4999999,838801.4999999,838802.4999999,838803.4999999,838804.4999999,838805.4999999,838806.4999999,838807.4999999,838808.4999999,838809.4999999,838810.4999999,838811.4999999,838812.4999999,838813.4999999,838814.4999999,838815.4999999,838816.4999999,838817.4999999,838818.4999999,838819.4999999,838820.4999999,838821.4999999,838822.4999999,838823.4999999,838824.4999999,838825.4999999,838826.4999999,838827.4999999,838828.4999999,838829.4999999,838830.4999999,838831.4999999,838832.4999999,838833.4999999,838834.4999999,838835.4999999,838836.4999999,838837.4999999,838838.4999999,838839.4999999,838840.4999999,838841.4999999,838842.4999999,838843.4999999,838844.4999999,838845.4999999,838846.4999999,838847.4999999,838848.4999999,838849.4999999,838850.4999999,838851.4999999,838852.4999999,838853.4999999,838854.4999999,838855.4999999,838856.4999999,838857.4999999,838858.4999999,838859.4999999,838860.4999999,838861.4999999,838862.4999999,838863.4999999,838864.4999999,838865.4999999,838866.4999999,838867.4999999,838868.4999999,838869.4999999,838870.4999999,838871.4999999,838872.4999999,838873.4999999,838874.4999999,838875.4999999,838876.4999999,838877.4999999,838878.4999999,838879.4999999,838880.4999999,838881.4999999,838882.4999999,838883.4999999,838884.4999999,838885.4999999,838886.4999999,838887.4999999,838888.4999999,838889.4999999,838890.4999999,838891.4999999,838892.4999999,838893.4999999,838894.4999999,838895.4999999,838896.4999999,838897.4999999,838898.4999999,838899.4999999},
{00e22,01e22,02e22,03e22,04e22,05e22,06e22,07e22,08e22,09e22,10e22,11e22,12e22,13e22,14e22,15e22,16e22,17e22,18e22,19e22,20e22,21e22,22e22,23e22,24e22,25e22,26e22,27e22,28e22,29e22,30e22,31e22,32e22,33e22,34e22,35e22,36e22,37e22,38e22,39e22,40e22,41e22,42e22,43e22,44e22,45e22,46e22,47e22,48e22,49e22,50e22,51e22,52e22,53e22,54e22,55e22,56e22,57e22,58e22,59e22,60e22,61e22,62e22,63e22,64e22,65e22,66e22,67e22,68e22,69e22,70e22,71e22,72e22,73e22,74e22,75e22,76e22,77e22,78e22,79e22,80e22,81e22,82e22,83e22,84e22,85e22,86e22,87e22,88e22,89e22,90e22,91e22,92e22,93e22,94e22,95e22,96e22,97e22,98e22,99e22},
{1.00e23,1.01e23,1.02e23,1.03e23,1.04e23,1.05e23,1.06e23,1.07e23,1.08e23,1.09e23,1.10e23,1.11e23,1.12e23,1.13e23,1.14e23,1.15e23,1.16e23,1.17e23,1.18e23,1.19e23,1.20e23,1.21e23,1.22e23,1.23e23,1.24e23,1.25e23,1.26e23,1.27e23,1.28e23,1.29e23,1.30e23,1.31e23,1.32e23,1.33e23,1.34e23,1.35e23,1.36e23,1.37e23,1.38e23,1.39e23,1.40e23,1.41e23,1.42e23,1.43e23,1.44e23,1.45e23,1.46e23,1.47e23,1.48e23,1.49e23,1.50e23,1.51e23,1.52e23,1.53e23,1.54e23,1.55e23,1.56e23,1.57e23,1.58e23,1.59e23,1.60e23,1.61e23,1.62e23,1.63e23,1.64e23,1.65e23,1.66e23,1.67e23,1.68e23,1.69e23,1.70e23,1.71e23,1.72e23,1.73e23,1.74e23,1.75e23,1.76e23,1.77e23,1.78e23,1.79e23,1.80e23,1.81e23,1.82e23,1.83e23,1.84e23,1.85e23,1.86e23,1.87e23,1.88e23,1.89e23,1.90e23,1.91e23,1.92e23,1.93e23,1.94e23,1.95e23,1.96e23,1.97e23,1.98e23,1.99e23},
{00e-324,01e-324,02e-324,03e-324,04e-324,05e-324,06e-324,07e-324,08e-324,09e-324,10e-324,11e-324,12e-324,13e-324,14e-324,15e-324,16e-324,17e-324,18e-324,19e-324,20e-324,21e-324,22e-324,23e-324,24e-324,25e-324,26e-324,27e-324,28e-324,29e-324,30e-324,31e-324,32e-324,33e-324,34e-324,35e-324,36e-324,37e-324,38e-324,39e-324,40e-324,41e-324,42e-324,43e-324,44e-324,45e-324,46e-324,47e-324,48e-324,49e-324,50e-324,51e-324,52e-324,53e-324,54e-324,55e-324,56e-324,57e-324,58e-324,59e-324,60e-324,61e-324,62e-324,63e-324,64e-324,65e-324,66e-324,67e-324,68e-324,69e-324,70e-324,71e-324,72e-324,73e-324,74e-324,75e-324,76e-324,77e-324,78e-324,79e-324,80e-324,81e-324,82e-324,83e-324,84e-324,85e-324,86e-324,87e-324,88e-324,89e-324,90e-324,91e-324,92e-324,93e-324,94e-324,95e-324,96e-324,97e-324,98e-324,99e-324},
{2.400e-324,2.401e-324,2.402e-324,2.403e-324,2.404e-324,2.405e-324,2.406e-324,2.407e-324,2.408e-324,2.409e-324,2.410e-324,2.411e-324,2.412e-324,2.413e-324,2.414e-324,2.415e-324,2.416e-324,2.417e-324,2.418e-324,2.419e-324,2.420e-324,2.421e-324,2.422e-324,2.423e-324,2.424e-324,2.425e-324,2.426e-324,2.427e-324,2.428e-324,2.429e-324,2.430e-324,2.431e-324,2.432e-324,2.433e-324,2.434e-324,2.435e-324,2.436e-324,2.437e-324,2.438e-324,2.439e-324,2.440e-324,2.441e-324,2.442e-324,2.443e-324,2.444e-324,2.445e-324,2.446e-324,2.447e-324,2.448e-324,2.449e-324,2.450e-324,2.451e-324,2.452e-324,2.453e-324,2.454e-324,2.455e-324,2.456e-324,2.457e-324,2.458e-324,2.459e-324,2.460e-324,2.461e-324,2.462e-324,2.463e-324,2.464e-324,2.465e-324,2.466e-324,2.467e-324,2.468e-324,2.469e-324,2.470e-324,2.471e-324,2.472e-324,2.473e-324,2.474e-324,2.475e-324,2.476e-324,2.477e-324,2.478e-324,2.479e-324,2.480e-324,2.481e-324,2.482e-324,2.483e-324,2.484e-324,2.485e-324,2.486e-324,2.487e-324,2.488e-324,2.489e-324,2.490e-324,2.491e-324,2.492e-324,2.493e-324,2.494e-324,2.495e-324,2.496e-324,2.497e-324,2.498e-324,2.499e-324},
{2.2250738585072000e-308,2.2250738585072001e-308,2.2250738585072002e-308,2.2250738585072003e-308,2.2250738585072004e-308,2.2250738585072005e-308,2.2250738585072006e-308,2.2250738585072007e-308,2.2250738585072008e-308,2.2250738585072009e-308,2.2250738585072010e-308,2.2250738585072011e-308,2.2250738585072012e-308,2.2250738585072013e-308,2.2250738585072014e-308,2.2250738585072015e-308,2.2250738585072016e-308,2.2250738585072017e-308,2.2250738585072018e-308,2.2250738585072019e-308,2.2250738585072020e-308,2.2250738585072021e-308,2.2250738585072022e-308,2.2250738585072023e-308,2.2250738585072024e-308,2.2250738585072025e-308,2.2250738585072026e-308,2.2250738585072027e-308,2.2250738585072028e-308,2.2250738585072029e-308,2.2250738585072030e-308,2.2250738585072031e-308,2.2250738585072032e-308,2.2250738585072033e-308,2.2250738585072034e-308,2.2250738585072035e-308,2.2250738585072036e-308,2.2250738585072037e-308,2.2250738585072038e-308,2.2250738585072039e-308,2.2250738585072040e-308,2.2250738585072041e-308,2.2250738585072042e-308,2.2250738585072043e-308,2.2250738585072044e-308,2.2250738585072045e-308,2.2250738585072046e-308,2.2250738585072047e-308,2.2250738585072048e-308,2.2250738585072049e-308,2.2250738585072050e-308,2.2250738585072051e-308,2.2250738585072052e-308,2.2250738585072053e-308,2.2250738585072054e-308,2.2250738585072055e-308,2.2250738585072056e-308,2.2250738585072057e-308,2.2250738585072058e-308,2.2250738585072059e-308,2.2250738585072060e-308,2.2250738585072061e-308,2.2250738585072062e-308,2.2250738585072063e-308,2.2250738585072064e-308,2.2250738585072065e-308,2.2250738585072066e-308,2.2250738585072067e-308,2.2250738585072068e-308,2.2250738585072069e-308,2.2250738585072070e-308,2.2250738585072071e-308,2.2250738585072072e-308,2.2250738585072073e-308,2.2250738585072074e-308,2.2250738585072075e-308,2.2250738585072076e-308,2.2250738585072077e-308,2.2250738585072078e-308,2.2250738585072079e-308,2.2250738585072080e-308,2.2250738585072081e-308,2.2250738585072082e-308,2.2250738585072083e-308,2.2250738585072084e-308,2.2250738585072085e-308,2.2250738585072086e-308,2.2250738585072087e-308,2.2250738585072088e-308,2.2250738585072089e-308,2.2250738585072090e-308,2.2250738585072091e-308,2.2250738585072092e-308,2.2250738585072093e-308,2.2250738585072094e-308,2.2250738585072095e-308,2.2250738585072096e-308,2.2250738585072097e-308,2.2250738585072098e-308,2.2250738585072099e-308},
{1.79769313486231500e308,1.79769313486231501e308,1.79769313486231502e308,1.79769313486231503e308,1.79769313486231504e308,1.79769313486231505e308,1.79769313486231506e308,1.79769313486231507e308,1.79769313486231508e308,1.79769313486231509e308,1.79769313486231510e308,1.79769313486231511e308,1.79769313486231512e308,1.79769313486231513e308,1.79769313486231514e308,1.79769313486231515e308,1.79769313486231516e308,1.79769313486231517e308,1.79769313486231518e308,1.79769313486231519e308,1.79769313486231520e308,1.79769313486231521e308,1.79769313486231522e308,1.79769313486231523e308,1.79769313486231524e308,1.79769313486231525e308,1.79769313486231526e308,1.79769313486231527e308,1.79769313486231528e308,1.79769313486231529e308,1.79769313486231530e308,1.79769313486231531e308,1.79769313486231532e308,1.79769313486231533e308,1.79769313486231534e308,1.79769313486231535e308,1.79769313486231536e308,1.79769313486231537e308,1.79769313486231538e308,1.79769313486231539e308,1.79769313486231540e308,1.79769313486231541e308,1.79769313486231542e308,1.79769313486231543e308,1.79769313486231544e308,1.79769313486231545e308,1.79769313486231546e308,1.79769313486231547e308,1.79769313486231548e308,1.79769313486231549e308,1.79769313486231550e308,1.79769313486231551e308,1.79769313486231552e308,1.79769313486231553e308,1.79769313486231554e308,1.79769313486231555e308,1.79769313486231556e308,1.79769313486231557e308,1.79769313486231558e308,1.79769313486231559e308,1.79769313486231560e308,1.79769313486231561e308,1.79769313486231562e308,1.79769313486231563e308,1.79769313486231564e308,1.79769313486231565e308,1.79769313486231566e308,1.79769313486231567e308,1.79769313486231568e308,1.79769313486231569e308,1.79769313486231570e308,1.79769313486231571e308,1.79769313486231572e308,1.79769313486231573e308,1.79769313486231574e308,1.79769313486231575e308,1.79769313486231576e308,1.79769313486231577e308,1.79769313486231578e308,1.79769313486231579e308,1.79769313486231580e308,1.79769313486231581e308,1.79769313486231582e308,1.79769313486231583e308,1.79769313486231584e308,1.79769313486231585e308,1.79769313486231586e308,1.79769313486231587e308,1.79769313486231588e308,1.79769313486231589e308,1.79769313486231590e308,1.79769313486231591e308,1.79769313486231592e308,1.79769313486231593e308,1.79769313486231594e308,1.79769313486231595e308,1.79769313486231596e308,1.79769313486231597e308,1.79769313486231598e308,1.79769313486231599e308},
{0.00000e312,0.00001e312,0.00002e312,0.00003e312,0.00004e312,0.00005e312,0.00006e312,0.00007e312,0.00008e312,0.00009e312,0.00010e312,0.00011e312,0.00012e312,0.00013e312,0.00014e312,0.00015e312,0.00016e312,0.00017e312,0.00018e312,0.00019e312,0.00020e312,0.00021e312,0.00022e312,0.00023e312,0.00024e312,0.00025e312,0.00026e312,0.00027e312,0.00028e312,0.00029e312,0.00030e312,0.00031e312,0.00032e312,0.00033e312,0.00034e312,0.00035e312,0.00036e312,0.00037e312,0.00038e312,0.00039e312,0.00040e312,0.00041e312,0.00042e312,0.00043e312,0.00044e312,0.00045e312,0.00046e312,0.00047e312,0.00048e312,0.00049e312,0.00050e312,0.00051e312,0.00052e312,0.00053e312,0.00054e312,0.00055e312,0.00056e312,0.00057e312,0.00058e312,0.00059e312,0.00060e312,0.00061e312,0.00062e312,0.00063e312,0.00064e312,0.00065e312,0.00066e312,0.00067e312,0.00068e312,0.00069e312,0.00070e312,0.00071e312,0.00072e312,0.00073e312,0.00074e312,0.00075e312,0.00076e312,0.00077e312,0.00078e312,0.00079e312,0.00080e312,0.00081e312,0.00082e312,0.00083e312,0.00084e312,0.00085e312,0.00086e312,0.00087e312,0.00088e312,0.00089e312,0.00090e312,0.00091e312,0.00092e312,0.00093e312,0.00094e312,0.00095e312,0.00096e312,0.00097e312,0.00098e312,0.00099e312},
{00e-46,01e-46,02e-46,03e-46,04e-46,05e-46,06e-46,07e-46,08e-46,09e-46,10e-46,11e-46,12e-46,13e-46,14e-46,15e-46,16e-46,17e-46,18e-46,19e-46,20e-46,21e-46,22e-46,23e-46,24e-46,25e-46,26e-46,27e-46,28e-46,29e-46,30e-46,31e-46,32e-46,33e-46,34e-46,35e-46,36e-46,37e-46,38e-46,39e-46,40e-46,41e-46,42e-46,43e-46,44e-46,45e-46,46e-46,47e-46,48e-46,49e-46,50e-46,51e-46,52e-46,53e-46,54e-46,55e-46,56e-46,57e-46,58e-46,59e-46,60e-46,61e-46,62e-46,63e-46,64e-46,65e-46,66e-46,67e-46,68e-46,69e-46,70e-46,71e-46,72e-46,73e-46,74e-46,75e-46,76e-46,77e-46,78e-46,79e-46,80e-46,81e-46,82e-46,83e-46,84e-46,85e-46,86e-46,87e-46,88e-46,89e-46,90e-46,91e-46,92e-46,93e-46,94e-46,95e-46,96e-46,97e-46,98e-46,99e-46},
{1.175494300e-38,1.175494301e-38,1.175494302e-38,1.175494303e-38,1.175494304e-38,1.175494305e-38,1.175494306e-38,1.175494307e-38,1.175494308e-38,1.175494309e-38,1.175494310e-38,1.175494311e-38,1.175494312e-38,1.175494313e-38,1.175494314e-38,1.175494315e-38,1.175494316e-38,1.175494317e-38,1.175494318e-38,1.175494319e-38,1.175494320e-38,1.175494321e-38,1.175494322e-38,1.175494323e-38,1.175494324e-38,1.175494325e-38,1.175494326e-38,1.175494327e-38,1.175494328e-38,1.175494329e-38,1.175494330e-38,1.175494331e-38,1.175494332e-38,1.175494333e-38,1.175494334e-38,1.175494335e-38,1.175494336e-38,1.175494337e-38,1.175494338e-38,1.175494339e-38,1.175494340e-38,1.175494341e-38,1.175494342e-38,1.175494343e-38,1.175494344e-38,1.175494345e-38,1.175494346e-38,1.175494347e-38,1.175494348e-38,1.175494349e-38,1.175494350e-38,1.175494351e-38,1.175494352e-38,1.175494353e-38,1.175494354e-38,1.175494355e-38,1.175494356e-38,1.175494357e-38,1.175494358e-38,1.175494359e-38,1.175494360e-38,1.175494361e-38,1.175494362e-38,1.175494363e-38,1.175494364e-38,1.175494365e-38,1.175494366e-38,1.175494367e-38,1.175494368e-38,1.175494369e-38,1.175494370e-38,1.175494371e-38,1.175494372e-38,1.175494373e-38,1.175494374e-38,1.175494375e-38,1.175494376e-38,1.175494377e-38,1.175494378e-38,1.175494379e-38,1.175494380e-38,1.175494381e-38,1.175494382e-38,1.175494383e-38,1.175494384e-38,1.175494385e-38,1.175494386e-38,1.175494387e-38,1.175494388e-38,1.175494389e-38,1.175494390e-38,1.175494391e-38,1.175494392e-38,1.175494393e-38,1.175494394e-38,1.175494395e-38,1.175494396e-38,1.175494397e-38,1.175494398e-38,1.175494399e-38},
{1.1754900e-38,1.1754901e-38,1.1754902e-38,1.1754903e-38,1.1754904e-38,1.1754905e-38,1.1754906e-38,1.1754907e-38,1.1754908e-38,1.1754909e-38,1.1754910e-38,1.1754911e-38,1.1754912e-38,1.1754913e-38,1.1754914e-38,1.1754915e-38,1.1754916e-38,1.1754917e-38,1.1754918e-38,1.1754919e-38,1.1754920e-38,1.1754921e-38,1.1754922e-38,1.1754923e-38,1.1754924e-38,1.1754925e-38,1.1754926e-38,1.1754927e-38,1.1754928e-38,1.1754929e-38,1.1754930e-38,1.1754931e-38,1.1754932e-38,1.1754933e-38,1.1754934e-38,1.1754935e-38,1.1754936e-38,1.1754937e-38,1.1754938e-38,1.1754939e-38,1.1754940e-38,1.1754941e-38,1.1754942e-38,1.1754943e-38,1.1754944e-38,1.1754945e-38,1.1754946e-38,1.1754947e-38,1.1754948e-38,1.1754949e-38,1.1754950e-38,1.1754951e-38,1.1754952e-38,1.1754953e-38,1.1754954e-38,1.1754955e-38,1.1754956e-38,1.1754957e-38,1.1754958e-38,1.1754959e-38,1.1754960e-38,1.1754961e-38,1.1754962e-38,1.1754963e-38,1.1754964e-38,1.1754965e-38,1.1754966e-38,1.1754967e-38,1.1754968e-38,1.1754969e-38,1.1754970e-38,1.1754971e-38,1.1754972e-38,1.1754973e-38,1.1754974e-38,1.1754975e-38,1.1754976e-38,1.1754977e-38,1.1754978e-38,1.1754979e-38,1.1754980e-38,1.1754981e-38,1.1754982e-38,1.1754983e-38,1.1754984e-38,1.1754985e-38,1.1754986e-38,1.1754987e-38,1.1754988e-38,1.1754989e-38,1.1754990e-38,1.1754991e-38,1.1754992e-38,1.1754993e-38,1.1754994e-38,1.1754995e-38,1.1754996e-38,1.1754997e-38,1.1754998e-38,1.1754999e-38},
{3.40282300e38,3.40282301e38,3.40282302e38,3.40282303e38,3.40282304e38,3.40282305e38,3.40282306e38,3.40282307e38,3.40282308e38,3.40282309e38,3.40282310e38,3.40282311e38,3.40282312e38,3.40282313e38,3.40282314e38,3.40282315e38,3.40282316e38,3.40282317e38,3.40282318e38,3.40282319e38,3.40282320e38,3.40282321e38,3.40282322e38,3.40282323e38,3.40282324e38,3.40282325e38,3.40282326e38,3.40282327e38,3.40282328e38,3.40282329e38,3.40282330e38,3.40282331e38,3.40282332e38,3.40282333e38,3.40282334e38,3.40282335e38,3.40282336e38,3.40282337e38,3.40282338e38,3.40282339e38,3.40282340e38,3.40282341e38,3.40282342e38,3.40282343e38,3.40282344e38,3.40282345e38,3.40282346e38,3.40282347e38,3.40282348e38,3.40282349e38,3.40282350e38,3.40282351e38,3.40282352e38,3.40282353e38,3.40282354e38,3.40282355e38,3.40282356e38,3.40282357e38,3.40282358e38,3.40282359e38,3.40282360e38,3.40282361e38,3.40282362e38,3.40282363e38,3.40282364e38,3.40282365e38,3.40282366e38,3.40282367e38,3.40282368e38,3.40282369e38,3.40282370e38,3.40282371e38,3.40282372e38,3.40282373e38,3.40282374e38,3.40282375e38,3.40282376e38,3.40282377e38,3.40282378e38,3.40282379e38,3.40282380e38,3.40282381e38,3.40282382e38,3.40282383e38,3.40282384e38,3.40282385e38,3.40282386e38,3.40282387e38,3.40282388e38,3.40282389e38,3.40282390e38,3.40282391e38,3.40282392e38,3.40282393e38,3.40282394e38,3.40282395e38,3.40282396e38,3.40282397e38,3.40282398e38,3.40282399e38},
{3.402823500e38,3.402823501e38,3.402823502e38,3.402823503e38,3.402823504e38,3.402823505e38,3.402823506e38,3.402823507e38,3.402823508e38,3.402823509e38,3.402823510e38,3.402823511e38,3.402823512e38,3.402823513e38,3.402823514e38,3.402823515e38,3.402823516e38,3.402823517e38,3.402823518e38,3.402823519e38,3.402823520e38,3.402823521e38,3.402823522e38,3.402823523e38,3.402823524e38,3.402823525e38,3.402823526e38,3.402823527e38,3.402823528e38,3.402823529e38,3.402823530e38,3.402823531e38,3.402823532e38,3.402823533e38,3.402823534e38,3.402823535e38,3.402823536e38,3.402823537e38,3.402823538e38,3.402823539e38,3.402823540e38,3.402823541e38,3.402823542e38,3.402823543e38,3.402823544e38,3.402823545e38,3.402823546e38,3.402823547e38,3.402823548e38,3.402823549e38,3.402823550e38,3.402823551e38,3.402823552e38,3.402823553e38,3.402823554e38,3.402823555e38,3.402823556e38,3.402823557e38,3.402823558e38,3.402823559e38,3.402823560e38,3.402823561e38,3.402823562e38,3.402823563e38,3.402823564e38,3.402823565e38,3.402823566e38,3.402823567e38,3.402823568e38,3.402823569e38,3.402823570e38,3.402823571e38,3.402823572e38,3.402823573e38,3.402823574e38,3.402823575e38,3.402823576e38,3.402823577e38,3.402823578e38,3.402823579e38,3.402823580e38,3.402823581e38,3.402823582e38,3.402823583e38,3.402823584e38,3.402823585e38,3.402823586e38,3.402823587e38,3.402823588e38,3.402823589e38,3.402823590e38,3.402823591e38,3.402823592e38,3.402823593e38,3.402823594e38,3.402823595e38,3.402823596e38,3.402823597e38,3.402823598e38,3.402823599e38},
{7.006400e-46,7.006401e-46,7.006402e-46,7.006403e-46,7.006404e-46,7.006405e-46,7.006406e-46,7.006407e-46,7.006408e-46,7.006409e-46,7.006410e-46,7.006411e-46,7.006412e-46,7.006413e-46,7.006414e-46,7.006415e-46,7.006416e-46,7.006417e-46,7.006418e-46,7.006419e-46,7.006420e-46,7.006421e-46,7.006422e-46,7.006423e-46,7.006424e-46,7.006425e-46,7.006426e-46,7.006427e-46,7.006428e-46,7.006429e-46,7.006430e-46,7.006431e-46,7.006432e-46,7.006433e-46,7.006434e-46,7.006435e-46,7.006436e-46,7.006437e-46,7.006438e-46,7.006439e-46,7.006440e-46,7.006441e-46,7.006442e-46,7.006443e-46,7.006444e-46,7.006445e-46,7.006446e-46,7.006447e-46,7.006448e-46,7.006449e-46,7.006450e-46,7.006451e-46,7.006452e-46,7.006453e-46,7.006454e-46,7.006455e-46,7.006456e-46,7.006457e-46,7.006458e-46,7.006459e-46,7.006460e-46,7.006461e-46,7.006462e-46,7.006463e-46,7.006464e-46,7.006465e-46,7.006466e-46,7.006467e-46,7.006468e-46,7.006469e-46,7.006470e-46,7.006471e-46,7.006472e-46,7.006473e-46,7.006474e-46,7.006475e-46,7.006476e-46,7.006477e-46,7.006478e-46,7.006479e-46,7.006480e-46,7.006481e-46,7.006482e-46,7.006483e-46,7.006484e-46,7.006485e-46,7.006486e-46,7.006487e-46,7.006488e-46,7.006489e-46,7.006490e-46,7.006491e-46,7.006492e-46,7.006493e-46,7.006494e-46,7.006495e-46,7.006496e-46,7.006497e-46,7.006498e-46,7.006499e-46},
{000000000e-3,000001000e-3,000002000e-3,000003000e-3,000004000e-3,000005000e-3,000006000e-3,000007000e-3,000008000e-3,000009000e-3,000010000e-3,000011000e-3,000012000e-3,000013000e-3,000014000e-3,000015000e-3,000016000e-3,000017000e-3,000018000e-3,000019000e-3,000020000e-3,000021000e-3,000022000e-3,000023000e-3,000024000e-3,000025000e-3,000026000e-3,000027000e-3,000028000e-3,000029000e-3,000030000e-3,000031000e-3,000032000e-3,000033000e-3,000034000e-3,000035000e-3,000036000e-3,000037000e-3,000038000e-3,000039000e-3,000040000e-3,000041000e-3,000042000e-3,000043000e-3,000044000e-3,000045000e-3,000046000e-3,000047000e-3,000048000e-3,000049000e-3,000050000e-3,000051000e-3,000052000e-3,000053000e-3,000054000e-3,000055000e-3,000056000e-3,000057000e-3,000058000e-3,000059000e-3,000060000e-3,000061000e-3,000062000e-3,000063000e-3,000064000e-3,000065000e-3,000066000e-3,000067000e-3,000068000e-3,000069000e-3,000070000e-3,000071000e-3,000072000e-3,000073000e-3,000074000e-3,000075000e-3,000076000e-3,000077000e-3,000078000e-3,000079000e-3,000080000e-3,000081000e-3,000082000e-3,000083000e-3,000084000e-3,000085000e-3,000086000e-3,000087000e-3,000088000e-3,000089000e-3,000090000e-3,000091000e-3,000092000e-3,000093000e-3,000094000e-3,000095000e-3,000096000e-3,000097000e-3,000098000e-3,000099000e-3},
{100e+2,101e+2,102e+2,103e+2,104e+2,105e+2,106e+2,107e+2,108e+2,109e+2,110e+2,111e+2,112e+2,113e+2,114e+2,115e+2,116e+2,117e+2,118e+2,119e+2,120e+2,121e+2,122e+2,123e+2,124e+2,125e+2,126e+2,127e+2,128e+2,129e+2,130e+2,131e+2,132e+2,133e+2,134e+2,135e+2,136e+2,137e+2,138e+2,139e+2,140e+2,141e+2,142e+2,143e+2,144e+2,145e+2,146e+2,147e+2,148e+2,149e+2,150e+2,151e+2,152e+2,153e+2,154e+2,155e+2,156e+2,157e+2,158e+2,159e+2,160e+2,161e+2,162e+2,163e+2,164e+2,165e+2,166e+2,167e+2,168e+2,169e+2,170e+2,171e+2,172e+2,173e+2,174e+2,175e+2,176e+2,177e+2,178e+2,179e+2,180e+2,181e+2,182e+2,183e+2,184e+2,185e+2,186e+2,187e+2,188e+2,189e+2,190e+2,191e+2,192e+2,193e+2,194e+2,195e+2,196e+2,197e+2,198e+2,199e+2},
{33554431.00,33554431.01,33554431.02,33554431.03,33554431.04,33554431.05,33554431.06,33554431.07,33554431.08,33554431.09,33554431.10,33554431.11,33554431.12,33554431.13,33554431.14,33554431.15,33554431.16,33554431.17,33554431.18,33554431.19,33554431.20,33554431.21,33554431.22,33554431.23,33554431.24,33554431.25,33554431.26,33554431.27,33554431.28,33554431.29,33554431.30,33554431.31,33554431.32,33554431.33,33554431.34,33554431.35,33554431.36,33554431.37,33554431.38,33554431.39,33554431.40,33554431.41,33554431.42,33554431.43,33554431.44,33554431.45,33554431.46,33554431.47,33554431.48,33554431.49,33554431.50,33554431.51,33554431.52,33554431.53,33554431.54,33554431.55,33554431.56,33554431.57,33554431.58,33554431.59,33554431.60,33554431.61,33554431.62,33554431.63,33554431.64,33554431.65,33554431.66,33554431.67,33554431.68,33554431.69,33554431.70,33554431.71,33554431.72,33554431.73,33554431.74,33554431.75,33554431.76,33554431.77,33554431.78,33554431.79,33554431.80,33554431.81,33554431.82,33554431.83,33554431.84,33554431.85,33554431.86,33554431.87,33554431.88,33554431.89,33554431.90,33554431.91,33554431.92,33554431.93,33554431.94,33554431.95,33554431.96,33554431.97,33554431.98,33554431.99},
{1801439850948198500.,1801439850948198501.,1801439850948198502.,1801439850948198503.,1801439850948198504.,1801439850948198505.,1801439850948198506.,1801439850948198507.,1801439850948198508.,1801439850948198509.,1801439850948198510.,1801439850948198511.,1801439850948198512.,1801439850948198513.,1801439850948198514.,1801439850948198515.,1801439850948198516.,1801439850948198517.,1801439850948198518.,1801439850948198519.,1801439850948198520.,1801439850948198521.,1801439850948198522.,1801439850948198523.,1801439850948198524.,1801439850948198525.,1801439850948198526.,1801439850948198527.,1801439850948198528.,1801439850948198529.,1801439850948198530.,1801439850948198531.,1801439850948198532.,1801439850948198533.,1801439850948198534.,1801439850948198535.,1801439850948198536.,1801439850948198537.,1801439850948198538.,1801439850948198539.,1801439850948198540.,1801439850948198541.,1801439850948198542.,1801439850948198543.,1801439850948198544.,1801439850948198545.,1801439850948198546.,1801439850948198547.,1801439850948198548.,1801439850948198549.,1801439850948198550.,1801439850948198551.,1801439850948198552.,1801439850948198553.,1801439850948198554.,1801439850948198555.,1801439850948198556.,1801439850948198557.,1801439850948198558.,1801439850948198559.,1801439850948198560.,1801439850948198561.,1801439850948198562.,1801439850948198563.,1801439850948198564.,1801439850948198565.,1801439850948198566.,1801439850948198567.,1801439850948198568.,1801439850948198569.,1801439850948198570.,1801439850948198571.,1801439850948198572.,1801439850948198573.,1801439850948198574.,1801439850948198575.,1801439850948198576.,1801439850948198577.,1801439850948198578.,1801439850948198579.,1801439850948198580.,1801439850948198581.,1801439850948198582.,1801439850948198583.,1801439850948198584.,1801439850948198585.,1801439850948198586.,1801439850948198587.,1801439850948198588.,1801439850948198589.,1801439850948198590.,1801439850948198591.,1801439850948198592.,1801439850948198593.,1801439850948198594.,1801439850948198595.,1801439850948198596.,1801439850948198597.,1801439850948198598.,1801439850948198599.},
{100e-400,101e-400,102e-400,103e-400,104e-400,105e-400,106e-400,107e-400,108e-400,109e-400,110e-400,111e-400,112e-400,113e-400,114e-400,115e-400,116e-400,117e-400,118e-400,119e-400,120e-400,121e-400,122e-400,123e-400,124e-400,125e-400,126e-400,127e-400,128e-400,129e-400,130e-400,131e-400,132e-400,133e-400,134e-400,135e-400,136e-400,137e-400,138e-400,139e-400,140e-400,141e-400,142e-400,143e-400,144e-400,145e-400,146e-400,147e-400,148e-400,149e-400,150e-400,151e-400,152e-400,153e-400,154e-400,155e-400,156e-400,157e-400,158e-400,159e-400,160e-400,161e-400,162e-400,163e-400,164e-400,165e-400,166e-400,167e-400,168e-400,169e-400,170e-400,171e-400,172e-400,173e-400,174e-400,175e-400,176e-400,177e-400,178e-400,179e-400,180e-400,181e-400,182e-400,183e-400,184e-400,185e-400,186e-400,187e-400,188e-400,189e-400,190e-400,191e-400,192e-400,193e-400,194e-400,195e-400,196e-400,197e-400,198e-400,199e-400},
{00e400,01e400,02e400,03e400,04e400,05e400,06e400,07e400,08e400,09e400,10e400,11e400,12e400,13e400,14e400,15e400,16e400,17e400,18e400,19e400,20e400,21e400,22e400,23e400,24e400,25e400,26e400,27e400,28e400,29e400,30e400,31e400,32e400,33e400,34e400,35e400,36e400,37e400,38e400,39e400,40e400,41e400,42e400,43e400,44e400,45e400,46e400,47e400,48e400,49e400,50e400,51e400,52e400,53e400,54e400,55e400,56e400,57e400,58e400,59e400,60e400,61e400,62e400,63e400,64e400,65e400,66e400,67e400,68e400,69e400,70e400,71e400,72e400,73e400,74e400,75e400,76e400,77e400,78e400,79e400,80e400,81e400,82e400,83e400,84e400,85e400,86e400,87e400,88e400,89e400,90e400,91e400,92e400,93e400,94e400,95e400,96e400,97e400,98e400,99e400},
{12345678901234567890123456700.0,12345678901234567890123456701.0,12345678901234567890123456702.0,12345678901234567890123456703.0,12345678901234567890123456704.0,12345678901234567890123456705.0,12345678901234567890123456706.0,12345678901234567890123456707.0,12345678901234567890123456708.0,12345678901234567890123456709.0,12345678901234567890123456710.0,12345678901234567890123456711.0,12345678901234567890123456712.0,12345678901234567890123456713.0,12345678901234567890123456714.0,12345678901234567890123456715.0,12345678901234567890123456716.0,12345678901234567890123456717.0,12345678901234567890123456718.0,12345678901234567890123456719.0,12345678901234567890123456720.0,12345678901234567890123456721.0,12345678901234567890123456722.0,12345678901234567890123456723.0,12345678901234567890123456724.0,12345678901234567890123456725.0,12345678901234567890123456726.0,12345678901234567890123456727.0,12345678901234567890123456728.0,12345678901234567890123456729.0,12345678901234567890123456730.0,12345678901234567890123456731.0,12345678901234567890123456732.0,12345678901234567890123456733.0,12345678901234567890123456734.0,12345678901234567890123456735.0,12345678901234567890123456736.0,12345678901234567890123456737.0,12345678901234567890123456738.0,12345678901234567890123456739.0,12345678901234567890123456740.0,12345678901234567890123456741.0,12345678901234567890123456742.0,12345678901234567890123456743.0,12345678901234567890123456744.0,12345678901234567890123456745.0,12345678901234567890123456746.0,12345678901234567890123456747.0,12345678901234567890123456748.0,12345678901234567890123456749.0,12345678901234567890123456750.0,12345678901234567890123456751.0,12345678901234567890123456752.0,12345678901234567890123456753.0,12345678901234567890123456754.0,12345678901234567890123456755.0,12345678901234567890123456756.0,12345678901234567890123456757.0,12345678901234567890123456758.0,12345678901234567890123456759.0,12345678901234567890123456760.0,12345678901234567890123456761.0,12345678901234567890123456762.0,12345678901234567890123456763.0,12345678901234567890123456764.0,12345678901234567890123456765.0,12345678901234567890123456766.0,12345678901234567890123456767.0,12345678901234567890123456768.0,12345678901234567890123456769.0,12345678901234567890123456770.0,12345678901234567890123456771.0,12345678901234567890123456772.0,12345678901234567890123456773.0,12345678901234567890123456774.0,12345678901234567890123456775.0,12345678901234567890123456776.0,12345678901234567890123456777.0,12345678901234567890123456778.0,12345678901234567890123456779.0,12345678901234567890123456780.0,12345678901234567890123456781.0,12345678901234567890123456782.0,12345678901234567890123456783.0,12345678901234567890123456784.0,12345678901234567890123456785.0,12345678901234567890123456786.0,12345678901234567890123456787.0,12345678901234567890123456788.0,12345678901234567890123456789.0,12345678901234567890123456790.0,12345678901234567890123456791.0,12345678901234567890123456792.0,12345678901234567890123456793.0,12345678901234567890123456794.0,12345678901234567890123456795.0,12345678901234567890123456796.0,12345678901234567890123456797.0,12345678901234567890123456798.0,12345678901234567890123456799.0},
{0.100000000000000000055511151231257827,0.101000000000000000055511151231257827,0.102000000000000000055511151231257827,0.103000000000000000055511151231257827,0.104000000000000000055511151231257827,0.105000000000000000055511151231257827,0.106000000000000000055511151231257827,0.107000000000000000055511151231257827,0.108000000000000000055511151231257827,0.109000000000000000055511151231257827,0.110000000000000000055511151231257827,0.111000000000000000055511151231257827,0.112000000000000000055511151231257827,0.113000000000000000055511151231257827,0.114000000000000000055511151231257827,0.115000000000000000055511151231257827,0.116000000000000000055511151231257827,0.117000000000000000055511151231257827,0.118000000000000000055511151231257827,0.119000000000000000055511151231257827,0.120000000000000000055511151231257827,0.121000000000000000055511151231257827,0.122000000000000000055511151231257827,0.123000000000000000055511151231257827,0.124000000000000000055511151231257827,0.125000000000000000055511151231257827,0.126000000000000000055511151231257827,0.127000000000000000055511151231257827,0.128000000000000000055511151231257827,0.129000000000000000055511151231257827,0.130000000000000000055511151231257827,0.131000000000000000055511151231257827,0.132000000000000000055511151231257827,0.133000000000000000055511151231257827,0.134000000000000000055511151231257827,0.135000000000000000055511151231257827,0.136000000000000000055511151231257827,0.137000000000000000055511151231257827,0.138000000000000000055511151231257827,0.139000000000000000055511151231257827,0.140000000000000000055511151231257827,0.141000000000000000055511151231257827,0.142000000000000000055511151231257827,0.143000000000000000055511151231257827,0.144000000000000000055511151231257827,0.145000000000000000055511151231257827,0.146000000000000000055511151231257827,0.147000000000000000055511151231257827,0.148000000000000000055511151231257827,0.149000000000000000055511151231257827,0.150000000000000000055511151231257827,0.151000000000000000055511151231257827,0.152000000000000000055511151231257827,0.153000000000000000055511151231257827,0.154000000000000000055511151231257827,0.155000000000000000055511151231257827,0.156000000000000000055511151231257827,0.157000000000000000055511151231257827,0.158000000000000000055511151231257827,0.159000000000000000055511151231257827,0.160000000000000000055511151231257827,0.161000000000000000055511151231257827,0.162000000000000000055511151231257827,0.163000000000000000055511151231257827,0.164000000000000000055511151231257827,0.165000000000000000055511151231257827,0.166000000000000000055511151231257827,0.167000000000000000055511151231257827,0.168000000000000000055511151231257827,0.169000000000000000055511151231257827,0.170000000000000000055511151231257827,0.171000000000000000055511151231257827,0.172000000000000000055511151231257827,0.173000000000000000055511151231257827,0.174000000000000000055511151231257827,0.175000000000000000055511151231257827,0.176000000000000000055511151231257827,0.177000000000000000055511151231257827,0.178000000000000000055511151231257827,0.179000000000000000055511151231257827,0.180000000000000000055511151231257827,0.181000000000000000055511151231257827,0.182000000000000000055511151231257827,0.183000000000000000055511151231257827,0.184000000000000000055511151231257827,0.185000000000000000055511151231257827,0.186000000000000000055511151231257827,0.187000000000000000055511151231257827,0.188000000000000000055511151231257827,0.189000000000000000055511151231257827,0.190000000000000000055511151231257827,0.191000000000000000055511151231257827,0.192000000000000000055511151231257827,0.193000000000000000055511151231257827,0.194000000000000000055511151231257827,0.195000000000000000055511151231257827,0.196000000000000000055511151231257827,0.197000000000000000055511151231257827,0.198000000000000000055511151231257827,0.199000000000000000055511151231257827},
{7205759403792700.0,7205759403792701.0,7205759403792702.0,7205759403792703.0,7205759403792704.0,7205759403792705.0,7205759403792706.0,7205759403792707.0,7205759403792708.0,7205759403792709.0,7205759403792710.0,7205759403792711.0,7205759403792712.0,7205759403792713.0,7205759403792714.0,7205759403792715.0,7205759403792716.0,7205759403792717.0,7205759403792718.0,7205759403792719.0,7205759403792720.0,7205759403792721.0,7205759403792722.0,7205759403792723.0,7205759403792724.0,7205759403792725.0,7205759403792726.0,7205759403792727.0,7205759403792728.0,7205759403792729.0,7205759403792730.0,7205759403792731.0,7205759403792732.0,7205759403792733.0,7205759403792734.0,7205759403792735.0,7205759403792736.0,7205759403792737.0,7205759403792738.0,7205759403792739.0,7205759403792740.0,7205759403792741.0,7205759403792742.0,7205759403792743.0,7205759403792744.0,7205759403792745.0,7205759403792746.0,7205759403792747.0,7205759403792748.0,7205759403792749.0,7205759403792750.0,7205759403792751.0,7205759403792752.0,7205759403792753.0,7205759403792754.0,7205759403792755.0,7205759403792756.0,7205759403792757.0,7205759403792758.0,7205759403792759.0,7205759403792760.0,7205759403792761.0,7205759403792762.0,7205759403792763.0,7205759403792764.0,7205759403792765.0,7205759403792766.0,7205759403792767.0,7205759403792768.0,7205759403792769.0,7205759403792770.0,7205759403792771.0,7205759403792772.0,7205759403792773.0,7205759403792774.0,7205759403792775.0,7205759403792776.0,7205759403792777.0,7205759403792778.0,7205759403792779.0,7205759403792780.0,7205759403792781.0,7205759403792782.0,7205759403792783.0,7205759403792784.0,7205759403792785.0,7205759403792786.0,7205759403792787.0,7205759403792788.0,7205759403792789.0,7205759403792790.0,7205759403792791.0,7205759403792792.0,7205759403792793.0,7205759403792794.0,7205759403792795.0,7205759403792796.0,7205759403792797.0,7205759403792798.0,7205759403792799.0},
{1.000000059604644700,1.000000059604644701,1.000000059604644702,1.000000059604644703,1.000000059604644704,1.000000059604644705,1.000000059604644706,1.000000059604644707,1.000000059604644708,1.000000059604644709,1.000000059604644710,1.000000059604644711,1.000000059604644712,1.000000059604644713,1.000000059604644714,1.000000059604644715,1.000000059604644716,1.000000059604644717,1.000000059604644718,1.000000059604644719,1.000000059604644720,1.000000059604644721,1.000000059604644722,1.000000059604644723,1.000000059604644724,1.000000059604644725,1.000000059604644726,1.000000059604644727,1.000000059604644728,1.000000059604644729,1.000000059604644730,1.000000059604644731,1.000000059604644732,1.000000059604644733,1.000000059604644734,1.000000059604644735,1.000000059604644736,1.000000059604644737,1.000000059604644738,1.000000059604644739,1.000000059604644740,1.000000059604644741,1.000000059604644742,1.000000059604644743,1.000000059604644744,1.000000059604644745,1.000000059604644746,1.000000059604644747,1.000000059604644748,1.000000059604644749,1.000000059604644750,1.000000059604644751,1.000000059604644752,1.000000059604644753,1.000000059604644754,1.000000059604644755,1.000000059604644756,1.000000059604644757,1.000000059604644758,1.000000059604644759,1.000000059604644760,1.000000059604644761,1.000000059604644762,1.000000059604644763,1.000000059604644764,1.000000059604644765,1.000000059604644766,1.000000059604644767,1.000000059604644768,1.000000059604644769,1.000000059604644770,1.000000059604644771,1.000000059604644772,1.000000059604644773,1.000000059604644774,1.000000059604644775,1.000000059604644776,1.000000059604644777,1.000000059604644778,1.000000059604644779,1.000000059604644780,1.000000059604644781,1.000000059604644782,1.000000059604644783,1.000000059604644784,1.000000059604644785,1.000000059604644786,1.000000059604644787,1.000000059604644788,1.000000059604644789,1.000000059604644790,1.000000059604644791,1.000000059604644792,1.000000059604644793,1.000000059604644794,1.000000059604644795,1.000000059604644796,1.000000059604644797,1.000000059604644798,1.000000059604644799},
{5.00e-324,5.01e-324,5.02e-324,5.03e-324,5.04e-324,5.05e-324,5.06e-324,5.07e-324,5.08e-324,5.09e-324,5.10e-324,5.11e-324,5.12e-324,5.13e-324,5.14e-324,5.15e-324,5.16e-324,5.17e-324,5.18e-324,5.19e-324,5.20e-324,5.21e-324,5.22e-324,5.23e-324,5.24e-324,5.25e-324,5.26e-324,5.27e-324,5.28e-324,5.29e-324,5.30e-324,5.31e-324,5.32e-324,5.33e-324,5.34e-324,5.35e-324,5.36e-324,5.37e-324,5.38e-324,5.39e-324,5.40e-324,5.41e-324,5.42e-324,5.43e-324,5.44e-324,5.45e-324,5.46e-324,5.47e-324,5.48e-324,5.49e-324,5.50e-324,5.51e-324,5.52e-324,5.53e-324,5.54e-324,5.55e-324,5.56e-324,5.57e-324,5.58e-324,5.59e-324,5.60e-324,5.61e-324,5.62e-324,5.63e-324,5.64e-324,5.65e-324,5.66e-324,5.67e-324,5.68e-324,5.69e-324,5.70e-324,5.71e-324,5.72e-324,5.73e-324,5.74e-324,5.75e-324,5.76e-324,5.77e-324,5.78e-324,5.79e-324,5.80e-324,5.81e-324,5.82e-324,5.83e-324,5.84e-324,5.85e-324,5.86e-324,5.87e-324,5.88e-324,5.89e-324,5.90e-324,5.91e-324,5.92e-324,5.93e-324,5.94e-324,5.95e-324,5.96e-324,5.97e-324,5.98e-324,5.99e-324},
};
static const float F[][100]={
{00.0f,01.0f,02.0f,03.0f,04.0f,05.0f,06.0f,07.0f,08.0f,09.0f,10.0f,11.0f,12.0f,13.0f,14.0f,15.0f,16.0f,17.0f,18.0f,19.0f,20.0f,21.0f,22.0f,23.0f,24.0f,25.0f,26.0f,27.0f,28.0f,29.0f,30.0f,31.0f,32.0f,33.0f,34.0f,35.0f,36.0f,37.0f,38.0f,39.0f,40.0f,41.0f,42.0f,43.0f,44.0f,45.0f,46.0f,47.0f,48.0f,49.0f,50.0f,51.0f,52.0f,53.0f,54.0f,55.0f,56.0f,57.0f,58.0f,59.0f,60.0f,61.0f,62.0f,63.0f,64.0f,65.0f,66.0f,67.0f,68.0f,69.0f,70.0f,71.0f,72.0f,73.0f,74.0f,75.0f,76.0f,77.0f,78.0f,79.0f,80.0f,81.0f,82.0f,83.0f,84.0f,85.0f,86.0f,87.0f,88.0f,89.0f,90.0f,91.0f,92.0f,93.0f,94.0f,95.0f,96.0f,97.0f,98.0f,99.0f},
{0.00f,0.01f,0.02f,0.03f,0.04f,0.05f,0.06f,0.07f,0.08f,0.09f,0.10f,0.11f,0.12f,0.13f,0.14f,0.15f,0.16f,0.17f,0.18f,0.19f,0.20f,0.21f,0.22f,0.23f,0.24f,0.25f,0.26f,0.27f,0.28f,0.29f,0.30f,0.31f,0.32f,0.33f,0.34f,0.35f,0.36f,0.37f,0.38f,0.39f,0.40f,0.41f,0.42f,0.43f,0.44f,0.45f,0.46f,0.47f,0.48f,0.49f,0.50f,0.51f,0.52f,0.53f,0.54f,0.55f,0.56f,0.57f,0.58f,0.59f,0.60f,0.61f,0.62f,0.63f,0.64f,0.65f,0.66f,0.67f,0.68f,0.69f,0.70f,0.71f,0.72f,0.73f,0.74f,0.75f,0.76f,0.77f,0.78f,0.79f,0.80f,0.81f,0.82f,0.83f,0.84f,0.85f,0.86f,0.87f,0.88f,0.89f,0.90f,0.91f,0.92f,0.93f,0.94f,0.95f,0.96f,0.97f,0.98f,0.99f},
{00e5f,01e5f,02e5f,03e5f,04e5f,05e5f,06e5f,07e5f,08e5f,09e5f,10e5f,11e5f,12e5f,13e5f,14e5f,15e5f,16e5f,17e5f,18e5f,19e5f,20e5f,21e5f,22e5f,23e5f,24e5f,25e5f,26e5f,27e5f,28e5f,29e5f,30e5f,31e5f,32e5f,33e5f,34e5f,35e5f,36e5f,37e5f,38e5f,39e5f,40e5f,41e5f,42e5f,43e5f,44e5f,45e5f,46e5f,47e5f,48e5f,49e5f,50e5f,51e5f,52e5f,53e5f,54e5f,55e5f,56e5f,57e5f,58e5f,59e5f,60e5f,61e5f,62e5f,63e5f,64e5f,65e5f,66e5f,67e5f,68e5f,69e5f,70e5f,71e5f,72e5f,73e5f,74e5f,75e5f,76e5f,77e5f,78e5f,79e5f,80e5f,81e5f,82e5f,83e5f,84e5f,85e5f,86e5f,87e5f,88e5f,89e5f,90e5f,91e5f,92e5f,93e5f,94e5f,95e5f,96e5f,97e5f,98e5f,99e5f},
{00e-7f,01e-7f,02e-7f,03e-7f,04e-7f,05e-7f,06e-7f,07e-7f,08e-7f,09e-7f,10e-7f,11e-7f,12e-7f,13e-7f,14e-7f,15e-7f,16e-7f,17e-7f,18e-7f,19e-7f,20e-7f,21e-7f,22e-7f,23e-7f,24e-7f,25e-7f,26e-7f,27e-7f,28e-7f,29e-7f,30e-7f,31e-7f,32e-7f,33e-7f,34e-7f,35e-7f,36e-7f,37e-7f,38e-7f,39e-7f,40e-7f,41e-7f,42e-7f,43e-7f,44e-7f,45e-7f,46e-7f,47e-7f,48e-7f,49e-7f,50e-7f,51e-7f,52e-7f,53e-7f,54e-7f,55e-7f,56e-7f,57e-7f,58e-7f,59e-7f,60e-7f,61e-7f,62e-7f,63e-7f,64e-7f,65e-7f,66e-7f,67e-7f,68e-7f,69e-7f,70e-7f,71e-7f,72e-7f,73e-7f,74e-7f,75e-7f,76e-7f,77e-7f,78e-7f,79e-7f,80e-7f,81e-7f,82e-7f,83e-7f,84e-7f,85e-7f,86e-7f,87e-7f,88e-7f,89e-7f,90e-7f,91e-7f,92e-7f,93e-7f,94e-7f,95e-7f,96e-7f,97e-7f,98e-7f,99e-7f},
{100.25f,101.25f,102.25f,103.25f,104.25f,105.25f,106.25f,107.25f,108.25f,109.25f,110.25f,111.25f,112.25f,113.25f,114.25f,115.25f,116.25f,117.25f,118.25f,119.25f,120.25f,121.25f,122.25f,123.25f,124.25f,125.25f,126.25f,127.25f,128.25f,129.25f,130.25f,131.25f,132.25f,133.25f,134.25f,135.25f,136.25f,137.25f,138.25f,139.25f,140.25f,141.25f,142.25f,143.25f,144.25f,145.25f,146.25f,147.25f,148.25f,149.25f,150.25f,151.25f,152.25f,153.25f,154.25f,155.25f,156.25f,157.25f,158.25f,159.25f,160.25f,161.25f,162.25f,163.25f,164.25f,165.25f,166.25f,167.25f,168.25f,169.25f,170.25f,171.25f,172.25f,173.25f,174.25f,175.25f,176.25f,177.25f,178.25f,179.25f,180.25f,181.25f,182.25f,183.25f,184.25f,185.25f,186.25f,187.25f,188.25f,189.25f,190.25f,191.25f,192.25f,193.25f,194.25f,195.25f,196.25f,197.25f,198.25f,199.25f},
{9007199254740900.0f,9007199254740901.0f,9007199254740902.0f,9007199254740903.0f,9007199254740904.0f,9007199254740905.0f,9007199254740906.0f,9007199254740907.0f,9007199254740908.0f,9007199254740909.0f,9007199254740910.0f,9007199254740911.0f,9007199254740912.0f,9007199254740913.0f,9007199254740914.0f,9007199254740915.0f,9007199254740916.0f,9007199254740917.0f,9007199254740918.0f,9007199254740919.0f,9007199254740920.0f,9007199254740921.0f,9007199254740922.0f,9007199254740923.0f,9007199254740924.0f,9007199254740925.0f,9007199254740926.0f,9007199254740927.0f,9007199254740928.0f,9007199254740929.0f,9007199254740930.0f,9007199254740931.0f,9007199254740932.0f,9007199254740933.0f,9007199254740934.0f,9007199254740935.0f,9007199254740936.0f,9007199254740937.0f,9007199254740938.0f,9007199254740939.0f,9007199254740940.0f,9007199254740941.0f,9007199254740942.0f,9007199254740943.0f,9007199254740944.0f,9007199254740945.0f,9007199254740946.0f,9007199254740947.0f,9007199254740948.0f,9007199254740949.0f,9007199254740950.0f,9007199254740951.0f,9007199254740952.0f,9007199254740953.0f,9007199254740954.0f,9007199254740955.0f,9007199254740956.0f,9007199254740957.0f,9007199254740958.0f,9007199254740959.0f,9007199254740960.0f,9007199254740961.0f,9007199254740962.0f,9007199254740963.0f,9007199254740964.0f,9007199254740965.0f,9007199254740966.0f,9007199254740967.0f,9007199254740968.0f,9007199254740969.0f,9007199254740970.0f,9007199254740971.0f,9007199254740972.0f,9007199254740973.0f,9007199254740974.0f,9007199254740975.0f,9007199254740976.0f,9007199254740977.0f,9007199254740978.0f,9007199254740979.0f,9007199254740980.0f,9007199254740981.0f,9007199254740982.0f,9007199254740983.0f,9007199254740984.0f,9007199254740985.0f,9007199254740986.0f,9007199254740987.0f,9007199254740988.0f,9007199254740989.0f,9007199254740990.0f,9007199254740991.0f,9007199254740992.0f,9007199254740993.0f,9007199254740994.0f,9007199254740995.0f,9007199254740996.0f,9007199254740997.0f,9007199254740998.0f,9007199254740999.0f},
{9007199254740993.000f,9007199254740993.001f,9007199254740993.002f,9007199254740993.003f,9007199254740993.004f,9007199254740993.005f,9007199254740993.006f,9007199254740993.007f,9007199254740993.008f,9007199254740993.009f,9007199254740993.010f,9007199254740993.011f,9007199254740993.012f,9007199254740993.013f,9007199254740993.014f,9007199254740993.015f,9007199254740993.016f,9007199254740993.017f,9007199254740993.018f,9007199254740993.019f,9007199254740993.020f,9007199254740993.021f,9007199254740993.022f,9007199254740993.023f,9007199254740993.024f,9007199254740993.025f,9007199254740993.026f,9007199254740993.027f,9007199254740993.028f,9007199254740993.029f,9007199254740993.030f,9007199254740993.031f,9007199254740993.032f,9007199254740993.033f,9007199254740993.034f,9007199254740993.035f,9007199254740993.036f,9007199254740993.037f,9007199254740993.038f,9007199254740993.039f,9007199254740993.040f,9007199254740993.041f,9007199254740993.042f,9007199254740993.043f,9007199254740993.044f,9007199254740993.045f,9007199254740993.046f,9007199254740993.047f,9007199254740993.048f,9007199254740993.049f,9007199254740993.050f,9007199254740993.051f,9007199254740993.052f,9007199254740993.053f,9007199254740993.054f,9007199254740993.055f,9007199254740993.056f,9007199254740993.057f,9007199254740993.058f,9007199254740993.059f,9007199254740993.060f,9007199254740993.061f,9007199254740993.062f,9007199254740993.063f,9007199254740993.064f,9007199254740993.065f,9007199254740993.066f,9007199254740993.067f,9007199254740993.068f,9007199254740993.069f,9007199254740993.070f,9007199254740993.071f,9007199254740993.072f,9007199254740993.073f,9007199254740993.074f,9007199254740993.075f,9007199254740993.076f,9007199254740993.077f,9007199254740993.078f,9007199254740993.079f,9007199254740993.080f,9007199254740993.081f,9007199254740993.082f,9007199254740993.083f,9007199254740993.084f,9007199254740993.085f,9007199254740993.086f,9007199254740993.087f,9007199254740993.088f,9007199254740993.089f,9007199254740993.090f,9007199254740993.091f,9007199254740993.092f,9007199254740993.093f,9007199254740993.094f,9007199254740993.095f,9007199254740993.096f,9007199254740993.097f,9007199254740993.098f,9007199254740993.099f},
{4503599627370495.00f,4503599627370495.01f,4503599627370495.02f,4503599627370495.03f,4503599627370495.04f,4503599627370495.05f,4503599627370495.06f,4503599627370495.07f,4503599627370495.08f,4503599627370495.09f,4503599627370495.10f,4503599627370495.11f,4503599627370495.12f,4503599627370495.13f,4503599627370495.14f,4503599627370495.15f,4503599627370495.16f,4503599627370495.17f,4503599627370495.18f,4503599627370495.19f,4503599627370495.20f,4503599627370495.21f,4503599627370495.22f,4503599627370495.23f,4503599627370495.24f,4503599627370495.25f,4503599627370495.26f,4503599627370495.27f,4503599627370495.28f,4503599627370495.29f,4503599627370495.30f,4503599627370495.31f,4503599627370495.32f,4503599627370495.33f,4503599627370495.34f,4503599627370495.35f,4503599627370495.36f,4503599627370495.37f,4503599627370495.38f,4503599627370495.39f,4503599627370495.40f,4503599627370495.41f,4503599627370495.42f,4503599627370495.43f,4503599627370495.44f,4503599627370495.45f,4503599627370495.46f,4503599627370495.47f,4503599627370495.48f,4503599627370495.49f,4503599627370495.50f,4503599627370495.51f,4503599627370495.52f,4503599627370495.53f,4503599627370495.54f,4503599627370495.55f,4503599627370495.56f,4503599627370495.57f,4503599627370495.58f,4503599627370495.59f,4503599627370495.60f,4503599627370495.61f,4503599627370495.62f,4503599627370495.63f,4503599627370495.64f,4503599627370495.65f,4503599627370495.66f,4503599627370495.67f,4503599627370495.68f,4503599627370495.69f,4503599627370495.70f,4503599627370495.71f,4503599627370495.72f,4503599627370495.73f,4503599627370495.74f,4503599627370495.75f,4503599627370495.76f,4503599627370495.77f,4503599627370495.78f,4503599627370495.79f,4503599627370495.80f,4503599627370495.81f,4503599627370495.82f,4503599627370495.83f,4503599627370495.84f,4503599627370495.85f,4503599627370495.86f,4503599627370495.87f,4503599627370495.88f,4503599627370495.89f,4503599627370495.90f,4503599627370495.91f,4503599627370495.92f,4503599627370495.93f,4503599627370495.94f,4503599627370495.95f,4503599627370495.96f,4503599627370495.97f,4503599627370495.98f,4503599627370495.99f},
{16777200.0f,16777201.0f,16777202.0f,16777203.0f,16777204.0f,16777205.0f,16777206.0f,16777207.0f,16777208.0f,16777209.0f,16777210.0f,16777211.0f,16777212.0f,16777213.0f,16777214.0f,16777215.0f,16777216.0f,16777217.0f,16777218.0f,16777219.0f,16777220.0f,16777221.0f,16777222.0f,16777223.0f,16777224.0f,16777225.0f,16777226.0f,16777227.0f,16777228.0f,16777229.0f,16777230.0f,16777231.0f,16777232.0f,16777233.0f,16777234.0f,16777235.0f,16777236.0f,16777237.0f,16777238.0f,16777239.0f,16777240.0f,16777241.0f,16777242.0f,16777243.0f,16777244.0f,16777245.0f,16777246.0f,16777247.0f,16777248.0f,16777249.0f,16777250.0f,16777251.0f,16777252.0f,16777253.0f,16777254.0f,16777255.0f,16777256.0f,16777257.0f,16777258.0f,16777259.0f,16777260.0f,16777261.0f,16777262.0f,16777263.0f,16777264.0f,16777265.0f,16777266.0f,16777267.0f,16777268.0f,16777269.0f,16777270.0f,16777271.0f,16777272.0f,16777273.0f,16777274.0f,16777275.0f,16777276.0f,16777277.0f,16777278.0f,16777279.0f,16777280.0f,16777281.0f,16777282.0f,16777283.0f,16777284.0f,16777285.0f,16777286.0f,16777287.0f,16777288.0f,16777289.0f,16777290.0f,16777291.0f,16777292.0f,16777293.0f,16777294.0f,16777295.0f,16777296.0f,16777297.0f,16777298.0f,16777299.0f},
{167772100.5f,167772101.5f,167772102.5f,167772103.5f,167772104.5f,167772105.5f,167772106.5f,167772107.5f,167772108.5f,167772109.5f,167772110.5f,167772111.5f,167772112.5f,167772113.5f,167772114.5f,167772115.5f,167772116.5f,167772117.5f,167772118.5f,167772119.5f,167772120.5f,167772121.5f,167772122.5f,167772123.5f,167772124.5f,167772125.5f,167772126.5f,167772127.5f,167772128.5f,167772129.5f,167772130.5f,167772131.5f,167772132.5f,167772133.5f,167772134.5f,167772135.5f,167772136.5f,167772137.5f,167772138.5f,167772139.5f,167772140.5f,167772141.5f,167772142.5f,167772143.5f,167772144.5f,167772145.5f,167772146.5f,167772147.5f,167772148.5f,167772149.5f,167772150.5f,167772151.5f,167772152.5f,167772153.5f,167772154.5f,167772155.5f,167772156.5f,167772157.5f,167772158.5f,167772159.5f,167772160.5f,167772161.5f,167772162.5f,167772163.5f,167772164.5f,167772165.5f,167772166.5f,167772167.5f,167772168.5f,167772169.5f,167772170.5f,167772171.5f,167772172.5f,167772173.5f,167772174.5f,167772175.5f,167772176.5f,167772177.5f,167772178.5f,167772179.5f,167772180.5f,167772181.5f,167772182.5f,167772183.5f,167772184.5f,167772185.5f,167772186.5f,167772187.5f,167772188.5f,167772189.5f,167772190.5f,167772191.5f,167772192.5f,167772193.5f,167772194.5f,167772195.5f,167772196.5f,167772197.5f,167772198.5f,167772199.5f},
{838800.4999999f,838801.4999999f,838802.4999999f,838803.4999999f,838804.4999999f,838805.4999999f,838806.4999999f,838807.4999999f,838808.4999999f,838809.4999999f,838810.4999999f,838811.4999999f,838812.4999999f,838813.4999999f,838814.4999999f,838815.4999999f,838816.4999999f,838817.4999999f,838818.4999999f,838819.4999999f,838820.4999999f,838821.4999999f,838822.4999999f,838823.4999999f,838824.4999999f,838825.4999999f,838826.4999999f,838827.4999999f,838828.4999999f,838829.4999999f,838830.4999999f,838831.4999999f,838832.4999999f,838833.4999999f,838834.4999999f,838835.4999999f,838836.4999999f,838837.4999999f,838838.4999999f,838839.4999999f,838840.4999999f,838841.4999999f,838842.4999999f,838843.4999999f,838844.4999999f,838845.4999999f,838846.4999999f,838847.4999999f,838848.4999999f,838849.4999999f,838850.4999999f,838851.4999999f,838852.4999999f,838853.4999999f,838854.4999999f,838855.4999999f,838856.4999999f,838857.4999999f,838858.4999999f,838859.4999999f,838860.4999999f,838861.4999999f,838862.4999999f,838863.4999999f,838864.4999999f,838865.4999999f,838866.4999999f,838867.4999999f,838868.4999999f,838869.4999999f,838870.4999999f,838871.4999999f,838872.4999999f,838873.4999999f,838874.4999999f,838875.4999999f,838876.4999999f,838877.4999999f,838878.4999999f,838879.4999999f,838880.4999999f,838881.4999999f,838882.4999999f,838883.4999999f,838884.4999999f,838885.4999999f,838886.4999999f,838887.4999999f,838888.4999999f,838889.4999999f,838890.4999999f,838891.4999999f,838892.4999999f,838893.4999999f,838894.4999999f,838895.4999999f,838896.4999999f,838897.4999999f,838898.4999999f,838899.4999999f},
{00e22f,01e22f,02e22f,03e22f,04e22f,05e22f,06e22f,07e22f,08e22f,09e22f,10e22f,11e22f,12e22f,13e22f,14e22f,15e22f,16e22f,17e22f,18e22f,19e22f,20e22f,21e22f,22e22f,23e22f,24e22f,25e22f,26e22f,27e22f,28e22f,29e22f,30e22f,31e22f,32e22f,33e22f,34e22f,35e22f,36e22f,37e22f,38e22f,39e22f,40e22f,41e22f,42e22f,43e22f,44e22f,45e22f,46e22f,47e22f,48e22f,49e22f,50e22f,51e22f,52e22f,53e22f,54e22f,55e22f,56e22f,57e22f,58e22f,59e22f,60e22f,61e22f,62e22f,63e22f,64e22f,65e22f,66e22f,67e22f,68e22f,69e22f,70e22f,71e22f,72e22f,73e22f,74e22f,75e22f,76e22f,77e22f,78e22f,79e22f,80e22f,81e22f,82e22f,83e22f,84e22f,85e22f,86e22f,87e22f,88e22f,89e22f,90e22f,91e22f,92e22f,93e22f,94e22f,95e22f,96e22f,97e22f,98e22f,99e22f},
{1.00e23f,1.01e23f,1.02e23f,1.03e23f,1.04e23f,1.05e23f,1.06e23f,1.07e23f,1.08e23f,1.09e23f,1.10e23f,1.11e23f,1.12e23f,1.13e23f,1.14e23f,1.15e23f,1.16e23f,1.17e23f,1.18e23f,1.19e23f,1.20e23f,1.21e23f,1.22e23f,1.23e23f,1.24e23f,1.25e23f,1.26e23f,1.27e23f,1.28e23f,1.29e23f,1.30e23f,1.31e23f,1.32e23f,1.33e23f,1.34e23f,1.35e23f,1.36e23f,1.37e23f,1.38e23f,1.39e23f,1.40e23f,1.41e23f,1.42e23f,1.43e23f,1.44e23f,1.45e23f,1.46e23f,1.47e23f,1.48e23f,1.49e23f,1.50e23f,1.51e23f,1.52e23f,1.53e23f,1.54e23f,1.55e23f,1.56e23f,1.57e23f,1.58e23f,1.59e23f,1.60e23f,1.61e23f,1.62e23f,1.63e23f,1.64e23f,1.65e23f,1.66e23f,1.67e23f,1.68e23f,1.69e23f,1.70e23f,1.71e23f,1.72e23f,1.73e23f,1.74e23f,1.75e23f,1.76e23f,1.77e23f,1.78e23f,1.79e23f,1.80e23f,1.81e23f,1.82e23f,1.83e23f,1.84e23f,1.85e23f,1.86e23f,1.87e23f,1.88e23f,1.89e23f,1.90e23f,1.91e23f,1.92e23f,1.93e23f,1.94e23f,1.95e23f,1.96e23f,1.97e23f,1.98e23f,1.99e23f},
{00e-324f,01e-324f,02e-324f,03e-324f,04e-324f,05e-324f,06e-324f,07e-324f,08e-324f,09e-324f,10e-324f,11e-324f,12e-324f,13e-324f,14e-324f,15e-324f,16e-324f,17e-324f,18e-324f,19e-324f,20e-324f,21e-324f,22e-324f,23e-324f,24e-324f,25e-324f,26e-324f,27e-324f,28e-324f,29e-324f,30e-324f,31e-324f,32e-324f,33e-324f,34e-324f,35e-324f,36e-324f,37e-324f,38e-324f,39e-324f,40e-324f,41e-324f,42e-324f,43e-324f,44e-324f,45e-324f,46e-324f,47e-324f,48e-324f,49e-324f,50e-324f,51e-324f,52e-324f,53e-324f,54e-324f,55e-324f,56e-324f,57e-324f,58e-324f,59e-324f,60e-324f,61e-324f,62e-324f,63e-324f,64e-324f,65e-324f,66e-324f,67e-324f,68e-324f,69e-324f,70e-324f,71e-324f,72e-324f,73e-324f,74e-324f,75e-324f,76e-324f,77e-324f,78e-324f,79e-324f,80e-324f,81e-324f,82e-324f,83e-324f,84e-324f,85e-324f,86e-324f,87e-324f,88e-324f,89e-324f,90e-324f,91e-324f,92e-324f,93e-324f,94e-324f,95e-324f,96e-324f,97e-324f,98e-324f,99e-324f},
{2.400e-324f,2.401e-324f,2.402e-324f,2.403e-324f,2.404e-324f,2.405e-324f,2.406e-324f,2.407e-324f,2.408e-324f,2.409e-324f,2.410e-324f,2.411e-324f,2.412e-324f,2.413e-324f,2.414e-324f,2.415e-324f,2.416e-324f,2.417e-324f,2.418e-324f,2.419e-324f,2.420e-324f,2.421e-324f,2.422e-324f,2.423e-324f,2.424e-324f,2.425e-324f,2.426e-324f,2.427e-324f,2.428e-324f,2.429e-324f,2.430e-324f,2.431e-324f,2.432e-324f,2.433e-324f,2.434e-324f,2.435e-324f,2.436e-324f,2.437e-324f,2.438e-324f,2.439e-324f,2.440e-324f,2.441e-324f,2.442e-324f,2.443e-324f,2.444e-324f,2.445e-324f,2.446e-324f,2.447e-324f,2.448e-324f,2.449e-324f,2.450e-324f,2.451e-324f,2.452e-324f,2.453e-324f,2.454e-324f,2.455e-324f,2.456e-324f,2.457e-324f,2.458e-324f,2.459e-324f,2.460e-324f,2.461e-324f,2.462e-324f,2.463e-324f,2.464e-324f,2.465e-324f,2.466e-324f,2.467e-324f,2.468e-324f,2.469e-324f,2.470e-324f,2.471e-324f,2.472e-324f,2.473e-324f,2.474e-324f,2.475e-324f,2.476e-324f,2.477e-324f,2.478e-324f,2.479e-324f,2.480e-324f,2.481e-324f,2.482e-324f,2.483e-324f,2.484e-324f,2.485e-324f,2.486e-324f,2.487e-324f,2.488e-324f,2.489e-324f,2.490e-324f,2.491e-324f,2.492e-324f,2.493e-324f,2.494e-324f,2.495e-324f,2.496e-324f,2.497e-324f,2.498e-324f,2.499e-324f},
{2.2250738585072000e-308f,2.2250738585072001e-308f,2.2250738585072002e-308f,2.2250738585072003e-308f,2.2250738585072004e-308f,2.2250738585072005e-308f,2.2250738585072006e-308f,2.2250738585072007e-308f,2.2250738585072008e-308f,2.2250738585072009e-308f,2.2250738585072010e-308f,2.2250738585072011e-308f,2.2250738585072012e-308f,2.2250738585072013e-308f,2.2250738585072014e-308f,2.2250738585072015e-308f,2.2250738585072016e-308f,2.2250738585072017e-308f,2.2250738585072018e-308f,2.2250738585072019e-308f,2.2250738585072020e-308f,2.2250738585072021e-308f,2.2250738585072022e-308f,2.2250738585072023e-308f,2.2250738585072024e-308f,2.2250738585072025e-308f,2.2250738585072026e-308f,2.2250738585072027e-308f,2.2250738585072028e-308f,2.2250738585072029e-308f,2.2250738585072030e-308f,2.2250738585072031e-308f,2.2250738585072032e-308f,2.2250738585072033e-308f,2.2250738585072034e-308f,2.2250738585072035e-308f,2.2250738585072036e-308f,2.2250738585072037e-308f,2.2250738585072038e-308f,2.2250738585072039e-308f,2.2250738585072040e-308f,2.2250738585072041e-308f,2.2250738585072042e-308f,2.2250738585072043e-308f,2.2250738585072044e-308f,2.2250738585072045e-308f,2.2250738585072046e-308f,2.2250738585072047e-308f,2.2250738585072048e-308f,2.2250738585072049e-308f,2.2250738585072050e-308f,2.2250738585072051e-308f,2.2250738585072052e-308f,2.2250738585072053e-308f,2.2250738585072054e-308f,2.2250738585072055e-308f,2.2250738585072056e-308f,2.2250738585072057e-308f,2.2250738585072058e-308f,2.2250738585072059e-308f,2.2250738585072060e-308f,2.2250738585072061e-308f,2.2250738585072062e-308f,2.2250738585072063e-308f,2.2250738585072064e-308f,2.2250738585072065e-308f,2.2250738585072066e-308f,2.2250738585072067e-308f,2.2250738585072068e-308f,2.2250738585072069e-308f,2.2250738585072070e-308f,2.2250738585072071e-308f,2.2250738585072072e-308f,2.2250738585072073e-308f,2.2250738585072074e-308f,2.2250738585072075e-308f,2.2250738585072076e-308f,2.2250738585072077e-308f,2.2250738585072078e-308f,2.2250738585072079e-308f,2.2250738585072080e-308f,2.2250738585072081e-308f,2.2250738585072082e-308f,2.2250738585072083e-308f,2.2250738585072084e-308f,2.2250738585072085e-308f,2.2250738585072086e-308f,2.2250738585072087e-308f,2.2250738585072088e-308f,2.2250738585072089e-308f,2.2250738585072090e-308f,2.2250738585072091e-308f,2.2250738585072092e-308f,2.2250738585072093e-308f,2.2250738585072094e-308f,2.2250738585072095e-308f,2.2250738585072096e-308f,2.2250738585072097e-308f,2.2250738585072098e-308f,2.2250738585072099e-308f},
{1.79769313486231500e308f,1.79769313486231501e308f,1.79769313486231502e308f,1.79769313486231503e308f,1.79769313486231504e308f,1.79769313486231505e308f,1.79769313486231506e308f,1.79769313486231507e308f,1.79769313486231508e308f,1.79769313486231509e308f,1.79769313486231510e308f,1.79769313486231511e308f,1.79769313486231512e308f,1.79769313486231513e308f,1.79769313486231514e308f,1.79769313486231515e308f,1.79769313486231516e308f,1.79769313486231517e308f,1.79769313486231518e308f,1.79769313486231519e308f,1.79769313486231520e308f,1.79769313486231521e308f,1.79769313486231522e308f,1.79769313486231523e308f,1.79769313486231524e308f,1.79769313486231525e308f,1.79769313486231526e308f,1.79769313486231527e308f,1.79769313486231528e308f,1.79769313486231529e308f,1.79769313486231530e308f,1.79769313486231531e308f,1.79769313486231532e308f,1.79769313486231533e308f,1.79769313486231534e308f,1.79769313486231535e308f,1.79769313486231536e308f,1.79769313486231537e308f,1.79769313486231538e308f,1.79769313486231539e308f,1.79769313486231540e308f,1.79769313486231541e308f,1.79769313486231542e308f,1.79769313486231543e308f,1.79769313486231544e308f,1.79769313486231545e308f,1.79769313486231546e308f,1.79769313486231547e308f,1.79769313486231548e308f,1.79769313486231549e308f,1.79769313486231550e308f,1.79769313486231551e308f,1.79769313486231552e308f,1.79769313486231553e308f,1.79769313486231554e308f,1.79769313486231555e308f,1.79769313486231556e308f,1.79769313486231557e308f,1.79769313486231558e308f,1.79769313486231559e308f,1.79769313486231560e308f,1.79769313486231561e308f,1.79769313486231562e308f,1.79769313486231563e308f,1.79769313486231564e308f,1.79769313486231565e308f,1.79769313486231566e308f,1.79769313486231567e308f,1.79769313486231568e308f,1.79769313486231569e308f,1.79769313486231570e308f,1.79769313486231571e308f,1.79769313486231572e308f,1.79769313486231573e308f,1.79769313486231574e308f,1.79769313486231575e308f,1.79769313486231576e308f,1.79769313486231577e308f,1.79769313486231578e308f,1.79769313486231579e308f,1.79769313486231580e308f,1.79769313486231581e308f,1.79769313486231582e308f,1.79769313486231583e308f,1.79769313486231584e308f,1.79769313486231585e308f,1.79769313486231586e308f,1.79769313486231587e308f,1.79769313486231588e308f,1.79769313486231589e308f,1.79769313486231590e308f,1.79769313486231591e308f,1.79769313486231592e308f,1.79769313486231593e308f,1.79769313486231594e308f,1.79769313486231595e308f,1.79769313486231596e308f,1.79769313486231597e308f,1.79769313486231598e308f,1.79769313486231599e308f},
{0.00000e312f,0.00001e312f,0.00002e312f,0.00003e312f,0.00004e312f,0.00005e312f,0.00006e312f,0.00007e312f,0.00008e312f,0.00009e312f,0.00010e312f,0.00011e312f,0.00012e312f,0.00013e312f,0.00014e312f,0.00015e312f,0.00016e312f,0.00017e312f,0.00018e312f,0.00019e312f,0.00020e312f,0.00021e312f,0.00022e312f,0.00023e312f,0.00024e312f,0.00025e312f,0.00026e312f,0.00027e312f,0.00028e312f,0.00029e312f,0.00030e312f,0.00031e312f,0.00032e312f,0.00033e312f,0.00034e312f,0.00035e312f,0.00036e312f,0.00037e312f,0.00038e312f,0.00039e312f,0.00040e312f,0.00041e312f,0.00042e312f,0.00043e312f,0.00044e312f,0.00045e312f,0.00046e312f,0.00047e312f,0.00048e312f,0.00049e312f,0.00050e312f,0.00051e312f,0.00052e312f,0.00053e312f,0.00054e312f,0.00055e312f,0.00056e312f,0.00057e312f,0.00058e312f,0.00059e312f,0.00060e312f,0.00061e312f,0.00062e312f,0.00063e312f,0.00064e312f,0.00065e312f,0.00066e312f,0.00067e312f,0.00068e312f,0.00069e312f,0.00070e312f,0.00071e312f,0.00072e312f,0.00073e312f,0.00074e312f,0.00075e312f,0.00076e312f,0.00077e312f,0.00078e312f,0.00079e312f,0.00080e312f,0.00081e312f,0.00082e312f,0.00083e312f,0.00084e312f,0.00085e312f,0.00086e312f,0.00087e312f,0.00088e312f,0.00089e312f,0.00090e312f,0.00091e312f,0.00092e312f,0.00093e312f,0.00094e312f,0.00095e312f,0.00096e312f,0.00097e312f,0.00098e312f,0.00099e312f},
{00e-46f,01e-46f,02e-46f,03e-46f,04e-46f,05e-46f,06e-46f,07e-46f,08e-46f,09e-46f,10e-46f,11e-46f,12e-46f,13e-46f,14e-46f,15e-46f,16e-46f,17e-46f,18e-46f,19e-46f,20e-46f,21e-46f,22e-46f,23e-46f,24e-46f,25e-46f,26e-46f,27e-46f,28e-46f,29e-46f,30e-46f,31e-46f,32e-46f,33e-46f,34e-46f,35e-46f,36e-46f,37e-46f,38e-46f,39e-46f,40e-46f,41e-46f,42e-46f,43e-46f,44e-46f,45e-46f,46e-46f,47e-46f,48e-46f,49e-46f,50e-46f,51e-46f,52e-46f,53e-46f,54e-46f,55e-46f,56e-46f,57e-46f,58e-46f,59e-46f,60e-46f,61e-46f,62e-46f,63e-46f,64e-46f,65e-46f,66e-46f,67e-46f,68e-46f,69e-46f,70e-46f,71e-46f,72e-46f,73e-46f,74e-46f,75e-46f,76e-46f,77e-46f,78e-46f,79e-46f,80e-46f,81e-46f,82e-46f,83e-46f,84e-46f,85e-46f,86e-46f,87e-46f,88e-46f,89e-46f,90e-46f,91e-46f,92e-46f,93e-46f,94e-46f,95e-46f,96e-46f,97e-46f,98e-46f,99e-46f},
{1.175494300e-38f,1.175494301e-38f,1.175494302e-38f,1.175494303e-38f,1.175494304e-38f,1.175494305e-38f,1.175494306e-38f,1.175494307e-38f,1.175494308e-38f,1.175494309e-38f,1.175494310e-38f,1.175494311e-38f,1.175494312e-38f,1.175494313e-38f,1.175494314e-38f,1.175494315e-38f,1.175494316e-38f,1.175494317e-38f,1.175494318e-38f,1.175494319e-38f,1.175494320e-38f,1.175494321e-38f,1.175494322e-38f,1.175494323e-38f,1.175494324e-38f,1.175494325e-38f,1.175494326e-38f,1.175494327e-38f,1.175494328e-38f,1.175494329e-38f,1.175494330e-38f,1.175494331e-38f,1.175494332e-38f,1.175494333e-38f,1.175494334e-38f,1.175494335e-38f,1.175494336e-38f,1.175494337e-38f,1.175494338e-38f,1.175494339e-38f,1.175494340e-38f,1.175494341e-38f,1.175494342e-38f,1.175494343e-38f,1.175494344e-38f,1.175494345e-38f,1.175494346e-38f,1.175494347e-38f,1.175494348e-38f,1.175494349e-38f,1.175494350e-38f,1.175494351e-38f,1.175494352e-38f,1.175494353e-38f,1.175494354e-38f,1.175494355e-38f,1.175494356e-38f,1.175494357e-38f,1.175494358e-38f,1.175494359e-38f,1.175494360e-38f,1.175494361e-38f,1.175494362e-38f,1.175494363e-38f,1.175494364e-38f,1.175494365e-38f,1.175494366e-38f,1.175494367e-38f,1.175494368e-38f,1.175494369e-38f,1.175494370e-38f,1.175494371e-38f,1.175494372e-38f,1.175494373e-38f,1.175494374e-38f,1.175494375e-38f,1.175494376e-38f,1.175494377e-38f,1.175494378e-38f,1.175494379e-38f,1.175494380e-38f,1.175494381e-38f,1.175494382e-38f,1.175494383e-38f,1.175494384e-38f,1.175494385e-38f,1.175494386e-38f,1.175494387e-38f,1.175494388e-38f,1.175494389e-38f,1.175494390e-38f,1.175494391e-38f,1.175494392e-38f,1.175494393e-38f,1.175494394e-38f,1.175494395e-38f,1.175494396e-38f,1.175494397e-38f,1.175494398e-38f,1.175494399e-38f},
{1.1754900e-38f,1.1754901e-38f,1.1754902e-38f,1.1754903e-38f,1.1754904e-38f,1.1754905e-38f,1.1754906e-38f,1.1754907e-38f,1.1754908e-38f,1.1754909e-38f,1.1754910e-38f,1.1754911e-38f,1.1754912e-38f,1.1754913e-38f,1.1754914e-38f,1.1754915e-38f,1.1754916e-38f,1.1754917e-38f,1.1754918e-38f,1.1754919e-38f,1.1754920e-38f,1.1754921e-38f,1.1754922e-38f,1.1754923e-38f,1.1754924e-38f,1.1754925e-38f,1.1754926e-38f,1.1754927e-38f,1.1754928e-38f,1.1754929e-38f,1.1754930e-38f,1.1754931e-38f,1.1754932e-38f,1.1754933e-38f,1.1754934e-38f,1.1754935e-38f,1.1754936e-38f,1.1754937e-38f,1.1754938e-38f,1.1754939e-38f,1.1754940e-38f,1.1754941e-38f,1.1754942e-38f,1.1754943e-38f,1.1754944e-38f,1.1754945e-38f,1.1754946e-38f,1.1754947e-38f,1.1754948e-38f,1.1754949e-38f,1.1754950e-38f,1.1754951e-38f,1.1754952e-38f,1.1754953e-38f,1.1754954e-38f,1.1754955e-38f,1.1754956e-38f,1.1754957e-38f,1.1754958e-38f,1.1754959e-38f,1.1754960e-38f,1.1754961e-38f,1.1754962e-38f,1.1754963e-38f,1.1754964e-38f,1.1754965e-38f,1.1754966e-38f,1.1754967e-38f,1.1754968e-38f,1.1754969e-38f,1.1754970e-38f,1.1754971e-38f,1.1754972e-38f,1.1754973e-38f,1.1754974e-38f,1.1754975e-38f,1.1754976e-38f,1.1754977e-38f,1.1754978e-38f,1.1754979e-38f,1.1754980e-38f,1.1754981e-38f,1.1754982e-38f,1.1754983e-38f,1.1754984e-38f,1.1754985e-38f,1.1754986e-38f,1.1754987e-38f,1.1754988e-38f,1.1754989e-38f,1.1754990e-38f,1.1754991e-38f,1.1754992e-38f,1.1754993e-38f,1.1754994e-38f,1.1754995e-38f,1.1754996e-38f,1.1754997e-38f,1.1754998e-38f,1.1754999e-38f},
{3.40282300e38f,3.40282301e38f,3.40282302e38f,3.40282303e38f,3.40282304e38f,3.40282305e38f,3.40282306e38f,3.40282307e38f,3.40282308e38f,3.40282309e38f,3.40282310e38f,3.40282311e38f,3.40282312e38f,3.40282313e38f,3.40282314e38f,3.40282315e38f,3.40282316e38f,3.40282317e38f,3.40282318e38f,3.40282319e38f,3.40282320e38f,3.40282321e38f,3.40282322e38f,3.40282323e38f,3.40282324e38f,3.40282325e38f,3.40282326e38f,3.40282327e38f,3.40282328e38f,3.40282329e38f,3.40282330e38f,3.40282331e38f,3.40282332e38f,3.40282333e38f,3.40282334e38f,3.40282335e38f,3.40282336e38f,3.40282337e38f,3.40282338e38f,3.40282339e38f,3.40282340e38f,3.40282341e38f,3.40282342e38f,3.40282343e38f,3.40282344e38f,3.40282345e38f,3.40282346e38f,3.40282347e38f,3.40282348e38f,3.40282349e38f,3.40282350e38f,3.40282351e38f,3.40282352e38f,3.40282353e38f,3.40282354e38f,3.40282355e38f,3.40282356e38f,3.40282357e38f,3.40282358e38f,3.40282359e38f,3.40282360e38f,3.40282361e38f,3.40282362e38f,3.40282363e38f,3.40282364e38f,3.40282365e38f,3.40282366e38f,3.40282367e38f,3.40282368e38f,3.40282369e38f,3.40282370e38f,3.40282371e38f,3.40282372e38f,3.40282373e38f,3.40282374e38f,3.40282375e38f,3.40282376e38f,3.40282377e38f,3.40282378e38f,3.40282379e38f,3.40282380e38f,3.40282381e38f,3.40282382e38f,3.40282383e38f,3.40282384e38f,3.40282385e38f,3.40282386e38f,3.40282387e38f,3.40282388e38f,3.40282389e38f,3.40282390e38f,3.40282391e38f,3.40282392e38f,3.40282393e38f,3.40282394e38f,3.40282395e38f,3.40282396e38f,3.40282397e38f,3.40282398e38f,3.40282399e38f},
{3.402823500e38f,3.402823501e38f,3.402823502e38f,3.402823503e38f,3.402823504e38f,3.402823505e38f,3.402823506e38f,3.402823507e38f,3.402823508e38f,3.402823509e38f,3.402823510e38f,3.402823511e38f,3.402823512e38f,3.402823513e38f,3.402823514e38f,3.402823515e38f,3.402823516e38f,3.402823517e38f,3.402823518e38f,3.402823519e38f,3.402823520e38f,3.402823521e38f,3.402823522e38f,3.402823523e38f,3.402823524e38f,3.402823525e38f,3.402823526e38f,3.402823527e38f,3.402823528e38f,3.402823529e38f,3.402823530e38f,3.402823531e38f,3.402823532e38f,3.402823533e38f,3.402823534e38f,3.402823535e38f,3.402823536e38f,3.402823537e38f,3.402823538e38f,3.402823539e38f,3.402823540e38f,3.402823541e38f,3.402823542e38f,3.402823543e38f,3.402823544e38f,3.402823545e38f,3.402823546e38f,3.402823547e38f,3.402823548e38f,3.402823549e38f,3.402823550e38f,3.402823551e38f,3.402823552e38f,3.402823553e38f,3.402823554e38f,3.402823555e38f,3.402823556e38f,3.402823557e38f,3.402823558e38f,3.402823559e38f,3.402823560e38f,3.402823561e38f,3.402823562e38f,3.402823563e38f,3.402823564e38f,3.402823565e38f,3.402823566e38f,3.402823567e38f,3.402823568e38f,3.402823569e38f,3.402823570e38f,3.402823571e38f,3.402823572e38f,3.402823573e38f,3.402823574e38f,3.402823575e38f,3.402823576e38f,3.402823577e38f,3.402823578e38f,3.402823579e38f,3.402823580e38f,3.402823581e38f,3.402823582e38f,3.402823583e38f,3.402823584e38f,3.402823585e38f,3.402823586e38f,3.402823587e38f,3.402823588e38f,3.402823589e38f,3.402823590e38f,3.402823591e38f,3.402823592e38f,3.402823593e38f,3.402823594e38f,3.402823595e38f,3.402823596e38f,3.402823597e38f,3.402823598e38f,3.402823599e38f},
{7.006400e-46f,7.006401e-46f,7.006402e-46f,7.006403e-46f,7.006404e-46f,7.006405e-46f,7.006406e-46f,7.006407e-46f,7.006408e-46f,7.006409e-46f,7.006410e-46f,7.006411e-46f,7.006412e-46f,7.006413e-46f,7.006414e-46f,7.006415e-46f,7.006416e-46f,7.006417e-46f,7.006418e-46f,7.006419e-46f,7.006420e-46f,7.006421e-46f,7.006422e-46f,7.006423e-46f,7.006424e-46f,7.006425e-46f,7.006426e-46f,7.006427e-46f,7.006428e-46f,7.006429e-46f,7.006430e-46f,7.006431e-46f,7.006432e-46f,7.006433e-46f,7.006434e-46f,7.006435e-46f,7.006436e-46f,7.006437e-46f,7.006438e-46f,7.006439e-46f,7.006440e-46f,7.006441e-46f,7.006442e-46f,7.006443e-46f,7.006444e-46f,7.006445e-46f,7.006446e-46f,7.006447e-46f,7.006448e-46f,7.006449e-46f,7.006450e-46f,7.006451e-46f,7.006452e-46f,7.006453e-46f,7.006454e-46f,7.006455e-46f,7.006456e-46f,7.006457e-46f,7.006458e-46f,7.006459e-46f,7.006460e-46f,7.006461e-46f,7.006462e-46f,7.006463e-46f,7.006464e-46f,7.006465e-46f,7.006466e-46f,7.006467e-46f,7.006468e-46f,7.006469e-46f,7.006470e-46f,7.006471e-46f,7.006472e-46f,7.006473e-46f,7.006474e-46f,7.006475e-46f,7.006476e-46f,7.006477e-46f,7.006478e-46f,7.006479e-46f,7.006480e-46f,7.006481e-46f,7.006482e-46f,7.006483e-46f,7.006484e-46f,7.006485e-46f,7.006486e-46f,7.006487e-46f,7.006488e-46f,7.006489e-46f,7.006490e-46f,7.006491e-46f,7.006492e-46f,7.006493e-46f,7.006494e-46f,7.006495e-46f,7.006496e-46f,7.006497e-46f,7.006498e-46f,7.006499e-46f},
{000000000e-3f,000001000e-3f,000002000e-3f,000003000e-3f,000004000e-3f,000005000e-3f,000006000e-3f,000007000e-3f,000008000e-3f,000009000e-3f,000010000e-3f,000011000e-3f,000012000e-3f,000013000e-3f,000014000e-3f,000015000e-3f,000016000e-3f,000017000e-3f,000018000e-3f,000019000e-3f,000020000e-3f,000021000e-3f,000022000e-3f,000023000e-3f,000024000e-3f,000025000e-3f,000026000e-3f,000027000e-3f,000028000e-3f,000029000e-3f,000030000e-3f,000031000e-3f,000032000e-3f,000033000e-3f,000034000e-3f,000035000e-3f,000036000e-3f,000037000e-3f,000038000e-3f,000039000e-3f,000040000e-3f,000041000e-3f,000042000e-3f,000043000e-3f,000044000e-3f,000045000e-3f,000046000e-3f,000047000e-3f,000048000e-3f,000049000e-3f,000050000e-3f,000051000e-3f,000052000e-3f,000053000e-3f,000054000e-3f,000055000e-3f,000056000e-3f,000057000e-3f,000058000e-3f,000059000e-3f,000060000e-3f,000061000e-3f,000062000e-3f,000063000e-3f,000064000e-3f,000065000e-3f,000066000e-3f,000067000e-3f,000068000e-3f,000069000e-3f,000070000e-3f,000071000e-3f,000072000e-3f,000073000e-3f,000074000e-3f,000075000e-3f,000076000e-3f,000077000e-3f,000078000e-3f,000079000e-3f,000080000e-3f,000081000e-3f,000082000e-3f,000083000e-3f,000084000e-3f,000085000e-3f,000086000e-3f,000087000e-3f,000088000e-3f,000089000e-3f,000090000e-3f,000091000e-3f,000092000e-3f,000093000e-3f,000094000e-3f,000095000e-3f,000096000e-3f,000097000e-3f,000098000e-3f,000099000e-3f},
{100e+2f,101e+2f,102e+2f,103e+2f,104e+2f,105e+2f,106e+2f,107e+2f,108e+2f,109e+2f,110e+2f,111e+2f,112e+2f,113e+2f,114e+2f,115e+2f,116e+2f,117e+2f,118e+2f,119e+2f,120e+2f,121e+2f,122e+2f,123e+2f,124e+2f,125e+2f,126e+2f,127e+2f,128e+2f,129e+2f,130e+2f,131e+2f,132e+2f,133e+2f,134e+2f,135e+2f,136e+2f,137e+2f,138e+2f,139e+2f,140e+2f,141e+2f,142e+2f,143e+2f,144e+2f,145e+2f,146e+2f,147e+2f,148e+2f,149e+2f,150e+2f,151e+2f,152e+2f,153e+2f,154e+2f,155e+2f,156e+2f,157e+2f,158e+2f,159e+2f,160e+2f,161e+2f,162e+2f,163e+2f,164e+2f,165e+2f,166e+2f,167e+2f,168e+2f,169e+2f,170e+2f,171e+2f,172e+2f,173e+2f,174e+2f,175e+2f,176e+2f,177e+2f,178e+2f,179e+2f,180e+2f,181e+2f,182e+2f,183e+2f,184e+2f,185e+2f,186e+2f,187e+2f,188e+2f,189e+2f,190e+2f,191e+2f,192e+2f,193e+2f,194e+2f,195e+2f,196e+2f,197e+2f,198e+2f,199e+2f},
{33554431.00f,33554431.01f,33554431.02f,33554431.03f,33554431.04f,33554431.05f,33554431.06f,33554431.07f,33554431.08f,33554431.09f,33554431.10f,33554431.11f,33554431.12f,33554431.13f,33554431.14f,33554431.15f,33554431.16f,33554431.17f,33554431.18f,33554431.19f,33554431.20f,33554431.21f,33554431.22f,33554431.23f,33554431.24f,33554431.25f,33554431.26f,33554431.27f,33554431.28f,33554431.29f,33554431.30f,33554431.31f,33554431.32f,33554431.33f,33554431.34f,33554431.35f,33554431.36f,33554431.37f,33554431.38f,33554431.39f,33554431.40f,33554431.41f,33554431.42f,33554431.43f,33554431.44f,33554431.45f,33554431.46f,33554431.47f,33554431.48f,33554431.49f,33554431.50f,33554431.51f,33554431.52f,33554431.53f,33554431.54f,33554431.55f,33554431.56f,33554431.57f,33554431.58f,33554431.59f,33554431.60f,33554431.61f,33554431.62f,33554431.63f,33554431.64f,33554431.65f,33554431.66f,33554431.67f,33554431.68f,33554431.69f,33554431.70f,33554431.71f,33554431.72f,33554431.73f,33554431.74f,33554431.75f,33554431.76f,33554431.77f,33554431.78f,33554431.79f,33554431.80f,33554431.81f,33554431.82f,33554431.83f,33554431.84f,33554431.85f,33554431.86f,33554431.87f,33554431.88f,33554431.89f,33554431.90f,33554431.91f,33554431.92f,33554431.93f,33554431.94f,33554431.95f,33554431.96f,33554431.97f,33554431.98f,33554431.99f},
{1801439850948198500.f,1801439850948198501.f,1801439850948198502.f,1801439850948198503.f,1801439850948198504.f,1801439850948198505.f,1801439850948198506.f,1801439850948198507.f,1801439850948198508.f,1801439850948198509.f,1801439850948198510.f,1801439850948198511.f,1801439850948198512.f,1801439850948198513.f,1801439850948198514.f,1801439850948198515.f,1801439850948198516.f,1801439850948198517.f,1801439850948198518.f,1801439850948198519.f,1801439850948198520.f,1801439850948198521.f,1801439850948198522.f,1801439850948198523.f,1801439850948198524.f,1801439850948198525.f,1801439850948198526.f,1801439850948198527.f,1801439850948198528.f,1801439850948198529.f,1801439850948198530.f,1801439850948198531.f,1801439850948198532.f,1801439850948198533.f,1801439850948198534.f,1801439850948198535.f,1801439850948198536.f,1801439850948198537.f,1801439850948198538.f,1801439850948198539.f,1801439850948198540.f,1801439850948198541.f,1801439850948198542.f,1801439850948198543.f,1801439850948198544.f,1801439850948198545.f,1801439850948198546.f,1801439850948198547.f,1801439850948198548.f,1801439850948198549.f,1801439850948198550.f,1801439850948198551.f,1801439850948198552.f,1801439850948198553.f,1801439850948198554.f,1801439850948198555.f,1801439850948198556.f,1801439850948198557.f,1801439850948198558.f,1801439850948198559.f,1801439850948198560.f,1801439850948198561.f,1801439850948198562.f,1801439850948198563.f,1801439850948198564.f,1801439850948198565.f,1801439850948198566.f,1801439850948198567.f,1801439850948198568.f,1801439850948198569.f,1801439850948198570.f,1801439850948198571.f,1801439850948198572.f,1801439850948198573.f,1801439850948198574.f,1801439850948198575.f,1801439850948198576.f,1801439850948198577.f,1801439850948198578.f,1801439850948198579.f,1801439850948198580.f,1801439850948198581.f,1801439850948198582.f,1801439850948198583.f,1801439850948198584.f,1801439850948198585.f,1801439850948198586.f,1801439850948198587.f,1801439850948198588.f,1801439850948198589.f,1801439850948198590.f,1801439850948198591.f,1801439850948198592.f,1801439850948198593.f,1801439850948198594.f,1801439850948198595.f,1801439850948198596.f,1801439850948198597.f,1801439850948198598.f,1801439850948198599.f},
{100e-400f,101e-400f,102e-400f,103e-400f,104e-400f,105e-400f,106e-400f,107e-400f,108e-400f,109e-400f,110e-400f,111e-400f,112e-400f,113e-400f,114e-400f,115e-400f,116e-400f,117e-400f,118e-400f,119e-400f,120e-400f,121e-400f,122e-400f,123e-400f,124e-400f,125e-400f,126e-400f,127e-400f,128e-400f,129e-400f,130e-400f,131e-400f,132e-400f,133e-400f,134e-400f,135e-400f,136e-400f,137e-400f,138e-400f,139e-400f,140e-400f,141e-400f,142e-400f,143e-400f,144e-400f,145e-400f,146e-400f,147e-400f,148e-400f,149e-400f,150e-400f,151e-400f,152e-400f,153e-400f,154e-400f,155e-400f,156e-400f,157e-400f,158e-400f,159e-400f,160e-400f,161e-400f,162e-400f,163e-400f,164e-400f,165e-400f,166e-400f,167e-400f,168e-400f,169e-400f,170e-400f,171e-400f,172e-400f,173e-400f,174e-400f,175e-400f,176e-400f,177e-400f,178e-400f,179e-400f,180e-400f,181e-400f,182e-400f,183e-400f,184e-400f,185e-400f,186e-400f,187e-400f,188e-400f,189e-400f,190e-400f,191e-400f,192e-400f,193e-400f,194e-400f,195e-400f,196e-400f,197e-400f,198e-400f,199e-400f},
{00e400f,01e400f,02e400f,03e400f,04e400f,05e400f,06e400f,07e400f,08e400f,09e400f,10e400f,11e400f,12e400f,13e400f,14e400f,15e400f,16e400f,17e400f,18e400f,19e400f,20e400f,21e400f,22e400f,23e400f,24e400f,25e400f,26e400f,27e400f,28e400f,29e400f,30e400f,31e400f,32e400f,33e400f,34e400f,35e400f,36e400f,37e400f,38e400f,39e400f,40e400f,41e400f,42e400f,43e400f,44e400f,45e400f,46e400f,47e400f,48e400f,49e400f,50e400f,51e400f,52e400f,53e400f,54e400f,55e400f,56e400f,57e400f,58e400f,59e400f,60e400f,61e400f,62e400f,63e400f,64e400f,65e400f,66e400f,67e400f,68e400f,69e400f,70e400f,71e400f,72e400f,73e400f,74e400f,75e400f,76e400f,77e400f,78e400f,79e400f,80e400f,81e400f,82e400f,83e400f,84e400f,85e400f,86e400f,87e400f,88e400f,89e400f,90e400f,91e400f,92e400f,93e400f,94e400f,95e400f,96e400f,97e400f,98e400f,99e400f},
{12345678901234567890123456700.0f,12345678901234567890123456701.0f,12345678901234567890123456702.0f,12345678901234567890123456703.0f,12345678901234567890123456704.0f,12345678901234567890123456705.0f,12345678901234567890123456706.0f,12345678901234567890123456707.0f,12345678901234567890123456708.0f,12345678901234567890123456709.0f,12345678901234567890123456710.0f,12345678901234567890123456711.0f,12345678901234567890123456712.0f,12345678901234567890123456713.0f,12345678901234567890123456714.0f,12345678901234567890123456715.0f,12345678901234567890123456716.0f,12345678901234567890123456717.0f,12345678901234567890123456718.0f,12345678901234567890123456719.0f,12345678901234567890123456720.0f,12345678901234567890123456721.0f,12345678901234567890123456722.0f,12345678901234567890123456723.0f,12345678901234567890123456724.0f,12345678901234567890123456725.0f,12345678901234567890123456726.0f,12345678901234567890123456727.0f,12345678901234567890123456728.0f,12345678901234567890123456729.0f,12345678901234567890123456730.0f,12345678901234567890123456731.0f,12345678901234567890123456732.0f,12345678901234567890123456733.0f,12345678901234567890123456734.0f,12345678901234567890123456735.0f,12345678901234567890123456736.0f,12345678901234567890123456737.0f,12345678901234567890123456738.0f,12345678901234567890123456739.0f,12345678901234567890123456740.0f,12345678901234567890123456741.0f,12345678901234567890123456742.0f,12345678901234567890123456743.0f,12345678901234567890123456744.0f,12345678901234567890123456745.0f,12345678901234567890123456746.0f,12345678901234567890123456747.0f,12345678901234567890123456748.0f,12345678901234567890123456749.0f,12345678901234567890123456750.0f,12345678901234567890123456751.0f,12345678901234567890123456752.0f,12345678901234567890123456753.0f,12345678901234567890123456754.0f,12345678901234567890123456755.0f,12345678901234567890123456756.0f,12345678901234567890123456757.0f,12345678901234567890123456758.0f,12345678901234567890123456759.0f,12345678901234567890123456760.0f,12345678901234567890123456761.0f,12345678901234567890123456762.0f,12345678901234567890123456763.0f,12345678901234567890123456764.0f,12345678901234567890123456765.0f,12345678901234567890123456766.0f,12345678901234567890123456767.0f,12345678901234567890123456768.0f,12345678901234567890123456769.0f,12345678901234567890123456770.0f,12345678901234567890123456771.0f,12345678901234567890123456772.0f,12345678901234567890123456773.0f,12345678901234567890123456774.0f,12345678901234567890123456775.0f,12345678901234567890123456776.0f,12345678901234567890123456777.0f,12345678901234567890123456778.0f,12345678901234567890123456779.0f,12345678901234567890123456780.0f,12345678901234567890123456781.0f,12345678901234567890123456782.0f,12345678901234567890123456783.0f,12345678901234567890123456784.0f,12345678901234567890123456785.0f,12345678901234567890123456786.0f,12345678901234567890123456787.0f,12345678901234567890123456788.0f,12345678901234567890123456789.0f,12345678901234567890123456790.0f,12345678901234567890123456791.0f,12345678901234567890123456792.0f,12345678901234567890123456793.0f,12345678901234567890123456794.0f,12345678901234567890123456795.0f,12345678901234567890123456796.0f,12345678901234567890123456797.0f,12345678901234567890123456798.0f,12345678901234567890123456799.0f},
{0.100000000000000000055511151231257827f,0.101000000000000000055511151231257827f,0.102000000000000000055511151231257827f,0.103000000000000000055511151231257827f,0.104000000000000000055511151231257827f,0.105000000000000000055511151231257827f,0.106000000000000000055511151231257827f,0.107000000000000000055511151231257827f,0.108000000000000000055511151231257827f,0.109000000000000000055511151231257827f,0.110000000000000000055511151231257827f,0.111000000000000000055511151231257827f,0.112000000000000000055511151231257827f,0.113000000000000000055511151231257827f,0.114000000000000000055511151231257827f,0.115000000000000000055511151231257827f,0.116000000000000000055511151231257827f,0.117000000000000000055511151231257827f,0.118000000000000000055511151231257827f,0.119000000000000000055511151231257827f,0.120000000000000000055511151231257827f,0.121000000000000000055511151231257827f,0.122000000000000000055511151231257827f,0.123000000000000000055511151231257827f,0.124000000000000000055511151231257827f,0.125000000000000000055511151231257827f,0.126000000000000000055511151231257827f,0.127000000000000000055511151231257827f,0.128000000000000000055511151231257827f,0.129000000000000000055511151231257827f,0.130000000000000000055511151231257827f,0.131000000000000000055511151231257827f,0.132000000000000000055511151231257827f,0.133000000000000000055511151231257827f,0.134000000000000000055511151231257827f,0.135000000000000000055511151231257827f,0.136000000000000000055511151231257827f,0.137000000000000000055511151231257827f,0.138000000000000000055511151231257827f,0.139000000000000000055511151231257827f,0.140000000000000000055511151231257827f,0.141000000000000000055511151231257827f,0.142000000000000000055511151231257827f,0.143000000000000000055511151231257827f,0.144000000000000000055511151231257827f,0.145000000000000000055511151231257827f,0.146000000000000000055511151231257827f,0.147000000000000000055511151231257827f,0.148000000000000000055511151231257827f,0.149000000000000000055511151231257827f,0.150000000000000000055511151231257827f,0.151000000000000000055511151231257827f,0.152000000000000000055511151231257827f,0.153000000000000000055511151231257827f,0.154000000000000000055511151231257827f,0.155000000000000000055511151231257827f,0.156000000000000000055511151231257827f,0.157000000000000000055511151231257827f,0.158000000000000000055511151231257827f,0.159000000000000000055511151231257827f,0.160000000000000000055511151231257827f,0.161000000000000000055511151231257827f,0.162000000000000000055511151231257827f,0.163000000000000000055511151231257827f,0.164000000000000000055511151231257827f,0.165000000000000000055511151231257827f,0.166000000000000000055511151231257827f,0.167000000000000000055511151231257827f,0.168000000000000000055511151231257827f,0.169000000000000000055511151231257827f,0.170000000000000000055511151231257827f,0.171000000000000000055511151231257827f,0.172000000000000000055511151231257827f,0.173000000000000000055511151231257827f,0.174000000000000000055511151231257827f,0.175000000000000000055511151231257827f,0.176000000000000000055511151231257827f,0.177000000000000000055511151231257827f,0.178000000000000000055511151231257827f,0.179000000000000000055511151231257827f,0.180000000000000000055511151231257827f,0.181000000000000000055511151231257827f,0.182000000000000000055511151231257827f,0.183000000000000000055511151231257827f,0.184000000000000000055511151231257827f,0.185000000000000000055511151231257827f,0.186000000000000000055511151231257827f,0.187000000000000000055511151231257827f,0.188000000000000000055511151231257827f,0.189000000000000000055511151231257827f,0.190000000000000000055511151231257827f,0.191000000000000000055511151231257827f,0.192000000000000000055511151231257827f,0.193000000000000000055511151231257827f,0.194000000000000000055511151231257827f,0.195000000000000000055511151231257827f,0.196000000000000000055511151231257827f,0.197000000000000000055511151231257827f,0.198000000000000000055511151231257827f,0.199000000000000000055511151231257827f},
{7205759403792700.0f,7205759403792701.0f,7205759403792702.0f,7205759403792703.0f,7205759403792704.0f,7205759403792705.0f,7205759403792706.0f,7205759403792707.0f,7205759403792708.0f,7205759403792709.0f,7205759403792710.0f,7205759403792711.0f,7205759403792712.0f,7205759403792713.0f,7205759403792714.0f,7205759403792715.0f,7205759403792716.0f,7205759403792717.0f,7205759403792718.0f,7205759403792719.0f,7205759403792720.0f,7205759403792721.0f,7205759403792722.0f,7205759403792723.0f,7205759403792724.0f,7205759403792725.0f,7205759403792726.0f,7205759403792727.0f,7205759403792728.0f,7205759403792729.0f,7205759403792730.0f,7205759403792731.0f,7205759403792732.0f,7205759403792733.0f,7205759403792734.0f,7205759403792735.0f,7205759403792736.0f,7205759403792737.0f,7205759403792738.0f,7205759403792739.0f,7205759403792740.0f,7205759403792741.0f,7205759403792742.0f,7205759403792743.0f,7205759403792744.0f,7205759403792745.0f,7205759403792746.0f,7205759403792747.0f,7205759403792748.0f,7205759403792749.0f,7205759403792750.0f,7205759403792751.0f,7205759403792752.0f,7205759403792753.0f,7205759403792754.0f,7205759403792755.0f,7205759403792756.0f,7205759403792757.0f,7205759403792758.0f,7205759403792759.0f,7205759403792760.0f,7205759403792761.0f,7205759403792762.0f,7205759403792763.0f,7205759403792764.0f,7205759403792765.0f,7205759403792766.0f,7205759403792767.0f,7205759403792768.0f,7205759403792769.0f,7205759403792770.0f,7205759403792771.0f,7205759403792772.0f,7205759403792773.0f,7205759403792774.0f,7205759403792775.0f,7205759403792776.0f,7205759403792777.0f,7205759403792778.0f,7205759403792779.0f,7205759403792780.0f,7205759403792781.0f,7205759403792782.0f,7205759403792783.0f,7205759403792784.0f,7205759403792785.0f,7205759403792786.0f,7205759403792787.0f,7205759403792788.0f,7205759403792789.0f,7205759403792790.0f,7205759403792791.0f,7205759403792792.0f,7205759403792793.0f,7205759403792794.0f,7205759403792795.0f,7205759403792796.0f,7205759403792797.0f,7205759403792798.0f,7205759403792799.0f},
{1.000000059604644700f,1.000000059604644701f,1.000000059604644702f,1.000000059604644703f,1.000000059604644704f,1.000000059604644705f,1.000000059604644706f,1.000000059604644707f,1.000000059604644708f,1.000000059604644709f,1.000000059604644710f,1.000000059604644711f,1.000000059604644712f,1.000000059604644713f,1.000000059604644714f,1.000000059604644715f,1.000000059604644716f,1.000000059604644717f,1.000000059604644718f,1.000000059604644719f,1.000000059604644720f,1.000000059604644721f,1.000000059604644722f,1.000000059604644723f,1.000000059604644724f,1.000000059604644725f,1.000000059604644726f,1.000000059604644727f,1.000000059604644728f,1.000000059604644729f,1.000000059604644730f,1.000000059604644731f,1.000000059604644732f,1.000000059604644733f,1.000000059604644734f,1.000000059604644735f,1.000000059604644736f,1.000000059604644737f,1.000000059604644738f,1.000000059604644739f,1.000000059604644740f,1.000000059604644741f,1.000000059604644742f,1.000000059604644743f,1.000000059604644744f,1.000000059604644745f,1.000000059604644746f,1.000000059604644747f,1.000000059604644748f,1.000000059604644749f,1.000000059604644750f,1.000000059604644751f,1.000000059604644752f,1.000000059604644753f,1.000000059604644754f,1.000000059604644755f,1.000000059604644756f,1.000000059604644757f,1.000000059604644758f,1.000000059604644759f,1.000000059604644760f,1.000000059604644761f,1.000000059604644762f,1.000000059604644763f,1.000000059604644764f,1.000000059604644765f,1.000000059604644766f,1.000000059604644767f,1.000000059604644768f,1.000000059604644769f,1.000000059604644770f,1.000000059604644771f,1.000000059604644772f,1.000000059604644773f,1.000000059604644774f,1.000000059604644775f,1.000000059604644776f,1.000000059604644777f,1.000000059604644778f,1.000000059604644779f,1.000000059604644780f,1.000000059604644781f,1.000000059604644782f,1.000000059604644783f,1.000000059604644784f,1.000000059604644785f,1.000000059604644786f,1.000000059604644787f,1.000000059604644788f,1.000000059604644789f,1.000000059604644790f,1.000000059604644791f,1.000000059604644792f,1.000000059604644793f,1.000000059604644794f,1.000000059604644795f,1.000000059604644796f,1.000000059604644797f,1.000000059604644798f,1.000000059604644799f},
{5.00e-324f,5.01e-324f,5.02e-324f,5.03e-324f,5.04e-324f,5.05e-324f,5.06e-324f,5.07e-324f,5.08e-324f,5.09e-324f,5.10e-324f,5.11e-324f,5.12e-324f,5.13e-324f,5.14e-324f,5.15e-324f,5.16e-324f,5.17e-324f,5.18e-324f,5.19e-324f,5.20e-324f,5.21e-324f,5.22e-324f,5.23e-324f,5.24e-324f,5.25e-324f,5.26e-324f,5.27e-324f,5.28e-324f,5.29e-324f,5.30e-324f,5.31e-324f,5.32e-324f,5.33e-324f,5.34e-324f,5.35e-324f,5.36e-324f,5.37e-324f,5.38e-324f,5.39e-324f,5.40e-324f,5.41e-324f,5.42e-324f,5.43e-324f,5.44e-324f,5.45e-324f,5.46e-324f,5.47e-324f,5.48e-324f,5.49e-324f,5.50e-324f,5.51e-324f,5.52e-324f,5.53e-324f,5.54e-324f,5.55e-324f,5.56e-324f,5.57e-324f,5.58e-324f,5.59e-324f,5.60e-324f,5.61e-324f,5.62e-324f,5.63e-324f,5.64e-324f,5.65e-324f,5.66e-324f,5.67e-324f,5.68e-324f,5.69e-324f,5.70e-324f,5.71e-324f,5.72e-324f,5.73e-324f,5.74e-324f,5.75e-324f,5.76e-324f,5.77e-324f,5.78e-324f,5.79e-324f,5.80e-324f,5.81e-324f,5.82e-324f,5.83e-324f,5.84e-324f,5.85e-324f,5.86e-324f,5.87e-324f,5.88e-324f,5.89e-324f,5.90e-324f,5.91e-324f,5.92e-324f,5.93e-324f,5.94e-324f,5.95e-324f,5.96e-324f,5.97e-324f,5.98e-324f,5.99e-324f},
};
static const char*const A[]={"","0.","","","1","90071992547409","9007199254740993.0","4503599627370495.","167772","1677721","8388","","1.","","2.4","2.22507385850720","1.797693134862315","0.000","","1.1754943","1.17549","3.402823","3.4028235","7.0064","0000","1","33554431.","18014398509481985","1","","123456789012345678901234567","0.1","72057594037927","1.0000000596046447","5."};
static const char*const B[]={"","","e5","e-7",".25","","","","",".5",".4999999","e22","e23","e-324","e-324","e-308","e308","e312","e-46","e-38","e-38","e38","e38","e-46","000e-3","e+2","",".","e-400","e400","","000000000000000055511151231257827","","","e-324"};
u64 r_ntmpl(void){ return sizeof A/sizeof*A; }
u64 r_tmpl(u8*o,u64 t,u64 second){ const char*p=second?B[t]:A[t]; u64 n=0; while(p[n]){o[n]=p[n];n++;} return n; }
u64 r_d64(u64 t,u64 i){ return ((const u64*)D)[t*100+i]; }
u32 r_f32(u64 t,u64 i){ return ((const u32*)F)[t*100+i]; }
/* nearest to m * 2^(e-52), 2^52 <= m < 2^53, e <= -1023, ties to even */
u64 r_sub64(u64 s,i64 e,u64 m){ i64 k=-1022-e; u64 q,r,h; if(k>54)return s<<63; q=m>>k; r=m&((1ull<<k)-1); h=1ull<<(k-1); return s<<63|(q+((r>h)|((r==h)&(q&1)))); }
u32 r_sub32(u32 s,i32 e,u32 m){ i32 k=-126-e; u32 q,r,h; if(k>25)return s<<31; q=m>>k; r=m&((1u<<k)-1); h=1u<<(k-1); return s<<31|(q+((r>h)|((r==h)&(q&1)))); }
/* [+-] (inf | Inf | nan | NaN | digits with one . and _ [(e|E) [+-] digits with _]) */
u8 r_isflt(const u8*p,u64 n){
	u64 i=0; int d=0,dot=0; if(n&&(p[0]=='-'||p[0]=='+'))i++;
	if(n-i==3){ u8 a=p[i],b=p[i+1],c=p[i+2]; if((a=='i'||a=='I')&&b=='n'&&c=='f')return 1; if(a=='n'&&b=='a'&&c=='n')return 1; if(a=='N'&&b=='a'&&c=='N')return 1; }
	for(;i<n;i++){ u8 c=p[i]; if(c>='0'&&c<='9')d=1; else if(c=='.'){ if(dot)return 0; dot=1; } else if(c!='_')break; }
	if(!d)return 0; if(i==n)return 1; if(p[i]!='e'&&p[i]!='E')return 0; i++;
	if(i<n&&(p[i]=='-'||p[i]=='+'))i++;
	d=0; for(;i<n;i++){ u8 c=p[i]; if(c>='0'&&c<='9')d=1; else if(c!='_')return 0; }
	return d;
}
/* the double nearest to an integer */
u64 r_int64(u64 v){ if(!v)return 0; int e=63; while(!(v>>63)){v<<=1;e--;} u64 q=v>>11,r=v&2047; q+=(r>1024)|((r==1024)&(q&1)); return ((u64)(e+1023)<<52)+(q-(1ull<<52)); }
