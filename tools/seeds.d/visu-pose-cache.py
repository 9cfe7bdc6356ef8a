prop = "P34"
needs = "updates of the visualization switched off, the pose set, updates switched on again and the same pose set once more"
breaks = "the drawn model stays where it was, since the pose seems to be unchanged"
edits = [("VirtualRobot/Visualization/CoinVisualization/CoinVisualizationNode.cpp", """        globalPose = m;

        if (globalPoseTransform && updateVisualization)""", """        const bool moved = globalPose != m;
        globalPose = m;

        if (globalPoseTransform && updateVisualization && moved)""")]
demo = r'''
#include <VirtualRobot/Obstacle.h>
#include <VirtualRobot/Visualization/CoinVisualization/CoinVisualizationNode.h>
#include <Inventor/actions/SoGetBoundingBoxAction.h>
#include <Inventor/SbViewportRegion.h>
#include <iostream>
int main()
{
    VirtualRobot::ObstaclePtr o = VirtualRobot::Obstacle::createBox(100, 100, 100);
    auto v = boost::dynamic_pointer_cast<VirtualRobot::CoinVisualizationNode>(o->getVisualization());
    Eigen::Matrix4f m = Eigen::Matrix4f::Identity();
    m(0, 3) = 2000;
    o->setUpdateVisualization(false);
    o->setGlobalPose(m);
    o->setUpdateVisualization(true);
    o->setGlobalPose(m);
    SoGetBoundingBoxAction a(SbViewportRegion(100, 100));
    a.apply(v->getCoinVisualization());
    SbVec3f c = a.getBoundingBox().getCenter();
    std::cout << c[0] << " " << c[1] << " " << c[2] << std::endl;
    return std::abs(c[0] - 2) < 1e-3 ? 0 : 1;
}
'''
libs = "V"
